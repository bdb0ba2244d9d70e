"""Writes the per-property part of DESIGN.md from properties.jsonl, the check modules and the texts below. Run after changing any of them."""
import importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

ORACLE = {
    "C01": "Own evaluator of typed expressions on bit vectors (`vlib/cexpr.py`: usual conversions, wrap-around, sequence points; unspecified or undefined cases are never generated); the program also prints every object after each expression, so lost or extra side effects show.",
    "C02": "The same evaluator; each constant expression is used in array sizes, case labels, enumerators, initialisers, #if and run-time code, which all must agree.",
    "C03": "Own interpreter of statement trees (`vlib/cprog.py`); the trace of every executed statement is the output.",
    "C04": "Own layout model (`vlib/cty.py`: size, alignment, packing, offset, stride), measured in the running program by address differences, not by sizeof alone.",
    "C05": "Own initialiser model: the expected bytes of every object including padding between members (zero), brace elision, strings, designated sizes from initialisers; the program dumps every byte.",
    "C06": "Byte memory model (`vlib/cmem.py`): whole arena dumped after each copy, argument, return or assignment, guard bytes around.",
    "C07": "The same memory model with pointers as (object, offset); null, equal, ordered and one-past-the-end pointers; function pointers as members, elements, arguments.",
    "C08": "Exact rational and IEEE-754 single rounding in Python (`vlib/f32.py`); NaN payloads are not judged.",
    "C09": "As C01-C07 with 16-bit int; the linked .COM/.EXE runs under DOSBox, many cases per session.",
    "C10": "As C01-C08 for 20-bit segmented and flat-real addressing, plus objects and pointer walks that cross 64 KB boundaries (`vlib/farcheck.py`).",
    "C11": "As C01-C07 on qemu-mipsel.",
    "C12": "Own lexer/evaluator of literals; for malformed literals the oracle is: diagnosed, no output taken.",
    "C13": "Pairs: a program and the same program with one planted violation. The first has to compile, the second has to be refused with a message that names a line, exit status non-zero.",
    "C14": "Address and undefined-behaviour sanitizers on the compiler, exit status 0/1 only, a diagnostic when refused, CPU and output limits.",
    "C15": "Metamorphic: the run-time result of the program (already known from the model) is the same for every option set.",
    "C16": "Differential: the tool built by gcc against the tool built by the tree itself for each host, same input, byte-identical output, messages and status.",
    "C17": "Scope model that knows for every use which declaration is visible; each declaration has a unique value.",
    "C19": "Differential: all files compiled by gcc (-m32 or mipsel) against mixtures of objects of both compilers; every word that crosses a boundary is printed; esp/ebp, s0-s7 are compared by thunks.",
    "P01": "Reference model of translation phase 4 (`vlib/ppmodel.py`, Prosser's algorithm) and gcc -E as a second opinion; where C leaves a choice both results are accepted.",
    "P02": "Evaluator of #if expressions with 64-bit arithmetic, group model; malformed conditionals have to be diagnosed.",
    "P03": "Each marker token carries the file and line it was written on; the line markers of the output must say the same.",
    "P04": "Differential: assembly through smlrpp against assembly through the built-in preprocessor.",
    "P05": "As C14 for smlrpp.",
    "P06": "Model of the search order; each file contains a unique marker.",
    "L01": "The harness writes the objects, so it knows every field, symbol and addend; after the link it finds each piece by its random contents and recomputes each field (`vlib/linkm.py`).",
    "L02": "Own loaders for ten formats check what the real ones would refuse.",
    "L03": "Model of archive semantics: the set of members that the undefined symbols pull in; metamorphic regrouping.",
    "L04": "The model knows whether the program is complete and unambiguous; otherwise the link must fail with the symbol's name and leave no output.",
    "L05": "The model's order, alignment and merging rules over the located pieces.",
    "L06": "Own loader applies the relocation tables at other addresses and compares with a link made there.",
    "L07": "Own import loader: the import table, resolved by name against stub DLLs, must bind every called slot.",
    "L08": "As C14 for smlrl.",
    "D01": "Differential: the driver's result against a manual run of the documented steps.",
    "D02": "The archive is read with GNU ar and an own reader; contents, order, names.",
    "D03": "Fault injection through fake tools (`rt/fake.c`) that fail at a scripted invocation; the oracle is the exit status and the set of files left.",
    "D04": "Fake tools record their argument vectors; compared with the driver's model (`vlib/drv.py`).",
    "A01": "Differential: one program through NASM, YASM and FASM (through n2f) must give the same results; constants and data byte by byte.",
    "B01": "Exact Python model of printf; bytes beyond the limit must stay.", "B02": "Exact decimal expansion of the float with correct rounding.",
    "B03": "Model of scanf per directive, over every prefix of the input; every byte of the destination compared.", "B04": "Exact rational arithmetic, correctly rounded.",
    "B05": "Python bytes; arena compared in full; guard page behind the last byte.", "B06": "Block model: disjoint, aligned, preserved, failures only when the limit requires it; fragmentation bounded.",
    "B07": "Model of C streams (position, mode, pushback, buffering, error and EOF flags) plus the final contents of files.",
    "B08": "sorted() by the same order; permutation; comparison function sees elements only.", "B09": "Own proleptic Gregorian arithmetic; C's strftime tables.",
    "B10": "Exact rational and high-precision evaluation; correctly rounded results where the function is exact, otherwise a bound in units in the last place per function, plus the special values C prescribes.",
    "B12": "Model of the process: order of handlers, bytes flushed, exit status, values after longjmp.", "B14": "Reference model of files, descriptors and positions for POSIX, Windows and DOS; order-dependent sums of every transferred block and of the memory around it; the host reads the final files and modes.", "B13": "Exact integer arithmetic; the documented generator for rand.",
    "H01": "Model of each target's types and options.", "X01": "gcc with glibc runs the same program; for the language generators their reference interpreters.",
}
WHY = {
    "C": "The tests compile a fixed set of programs; the space of operand kinds, widths, register pressure and nesting that selects among code patterns is only reached by generated programs.",
    "P": "The suite has no test of the preprocessor of its own; it is exercised through a handful of sources.",
    "L": "The tests link a few programs made by this compiler; record layouts, addends, alignments and archive shapes of other producers are never presented.",
    "D": "The tests use a few fixed command lines, and never fail a step.",
    "A": "The tests use one assembler.",
    "B": "The tests call each function with a few values on one or two targets.",
    "H": "The tests include a few headers once, in one order.",
    "X": "The tests of each target are separate programs; Windows, macOS and DPMI programs are never run by them.",
}


def main():
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- properties -->\n", "<!-- /properties -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    out = []
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        x = json.loads(l)
        m = importlib.import_module("checks." + x["id"])
        out.append("### %s %s\n" % (x["id"], x["title"]))
        out.append("* Generated: %s" % m.LEVEL_NOTE)
        out.append("* Oracle: %s" % ORACLE[x["id"]])
        out.append("* Judged: %s" % m.RULE)
        out.append("* Assumes: %s." % "; ".join(m.ASSUMPTIONS))
        out.append("* Bounds and cost: quick up to %d cases or %d s, thorough up to %d cases or %d s, on 8 workers. %s" % (*m.QUICK, *m.THOROUGH, WHY[x["id"][0]]))
        out.append("")
    open(p, "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])


main()
