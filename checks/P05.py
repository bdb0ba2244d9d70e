"""P05: the preprocessor survives any input."""
import os
from vlib import fuzzsrc, exprcheck

ID = "P05"
NEEDS = ("asan:smlrpp",)
QUICK = (3000, 30)
THOROUGH = (300000, 700)
TECHNIQUE = "fuzzing: directive and macro grammar plus token and byte mutation under AddressSanitizer and UBSan"
LEVEL_NOTE = "Generated directive soup (macros of all kinds, conditionals, includes, #line, #pragma, assertions) and mutated sources of the tree with random options; sanitizers, exit status, diagnostics and CPU time as oracle."
RULE = ("Each evaluation is one preprocessor run on a mutated source with random options under ASan+UBSan: no report, no signal, exit status 0 or 1, a diagnostic whenever it is 1, and termination (time is not judged when macros can expand exponentially). "
        "Non-trivial: more than 16 bytes of source; distinct by source and options.")
ASSUMPTIONS = ["text whose macros can multiply (nested definitions) may take exponential time, as in any preprocessor"]

OPTS = ["-zI", "-zI -l", "-l", "-C", "-s", "-t", "-a", "-w", "-wa", "-ww", "-wt", "-wtt", "-wp", "-P", "-Q", "-Q -R", "-e", "-S", "-M", "-Ma", "-y", "-zs", "-Dx", "-DX=1", "-DF(a,b)=a##b", "-D", "-D=", "-D5", "-Dx=", "-UX", "-U", "-I.", "-Inone", "-J.", "-c99",
        "-Aa(b)", "-A", "-A-", "-Ba(b)", "-B", "-B-", "-d", "-dd", "-dm", "-q", "-m", "-U__FILE__", "-D__LINE__=3", "-Ddefined=1", "-D x=1", "-v", "-h", "-z", "-x", "-", "--", "-o", "-o out.i", "-C -l", "-DX=" + "q" * 500]

NAMES = ["A", "B", "F", "G", "X", "x", "y", "foo", "__LINE__", "__FILE__", "__VA_ARGS__", "defined", "__DATE__", "__STDC__", "_Pragma", "L", "e", "include", "__TIME__"]
TOKS = ["+", "-", "*", "/", "%", "(", ")", ",", "#", "##", "%:", "%:%:", "<", ">", "<<", ">>", "&&", "||", "!", "~", "?", ":", "...", "==", "!=", "1", "0", "0x10", "1u", "07", "1.5e", "'a'", "'\\n'", "'", '"', '"s"', 'L"w"', "L'a'", ".", "..", "->", "++", " ", " ", "  ", "\t", "/* c */", "// c", "\\\n", "\\", "??=", "??/\n", "@", "$", "`", "[", "]", "{", "}", ";", "99999999999999999999", "0xfffffffffffffffff", "-9223372036854775808", "1ull", "5k", "''"]


def line(rng, d=0):
    def toks(n):
        return "".join(rng.choice(TOKS if rng.random() < 0.55 else NAMES) + rng.choice(["", "", " "]) for _ in range(rng.randrange(n)))
    n = rng.choice(NAMES)
    k = rng.randrange(26)
    if k < 4:
        return "#define %s %s" % (n, toks(8))
    if k < 8:
        ps = rng.choice(["", "a", "a,b", "a, b, c", "...", "a,...", "a...", "a,a", "__VA_ARGS__", "a,", ",", "a b", "(", "1"])
        body = "".join(rng.choice(["a", "b", "c", "#a", "#b", "# a", "a##b", "##", "a ## b", "__VA_ARGS__", "#__VA_ARGS__", "#", " ", "(", ")", ",", n, rng.choice(NAMES), rng.choice(TOKS)]) + rng.choice(["", " "]) for _ in range(rng.randrange(9)))
        return "#define %s(%s) %s" % (n, ps, body)
    if k == 8:
        return "#undef %s" % n + rng.choice(["", " x", "("])
    if k < 11:
        return rng.choice(["#if ", "#elif ", "#if !", "#if defined ", "#if defined(", "#ifdef ", "#ifndef ", "#if "]) + rng.choice([n, toks(8), "1", "0", "", n + ")", "1/0", "1%0", "(1", "1?2", "1?2:3", "'a'==97", "-1>0u", "1<<99", "(-9223372036854775807-1)/-1", "0x", "defined defined"])
    if k < 14:
        return rng.choice(["#else", "#endif", "#endif", "#else x", "#endif x"])
    if k == 14:
        return rng.choice(["#include ", "#include_next ", "#include"]) + rng.choice(['"h.h"', "<h.h>", '"t.c"', n, '"none.h"', '"', "<", '""', "<>", "<h.h", toks(4), '"h.h" x', "<h.h> x", '"%s"' % ("d" * 300)])
    if k == 15:
        return rng.choice(["#line ", "# ", "#line"]) + rng.choice(["5", '5 "f"', "0", "2147483648", "99999999999", "x", '"f"', n, '5 "f', "5 f", "0x5", "05", '5 L"f"', toks(4), "'a'", '5 ""'])
    if k == 16:
        return "#pragma " + toks(6)
    if k == 17:
        return rng.choice(["#error ", "#warning ", "#ident ", "#assert ", "#unassert ", "#assert ", "#if #", "#foo "]) + rng.choice([toks(5), "a(b)", "a", "a(", "a()", "a(b", "m(*)", "a(b) c", n])
    if k == 18:
        return rng.choice(["#", "# ", "##", "#5", "#!x", "%:define X 1", "??=define X 2", "#\\\ndefine X 3", "/**/#define X", "# /* */ define X"])
    if k == 19:
        return '_Pragma(%s)' % rng.choice(['"x"', '"', "", "x", 'L"x"', '"\\""', "("])
    if k < 24:
        return rng.choice(NAMES) + rng.choice(["(", "", "()", "(" + toks(5) + ")", "(1,2)", "(1", "((1,2),3)", "(,)", "\n(1)", " (x)(y)"]) + toks(4)
    return toks(12)


def seed(rng):
    return "\n".join(line(rng) for _ in range(rng.choice([1, 3, 8, 20, 50]))) + rng.choice(["\n", "\n", "", "\\", "\\\n", "/*", "'", '"'])


_SD = []


def setup(tc):
    global _SD
    _SD = fuzzsrc.seeds(tc)


def gen(rng, idx, tier):
    def text():
        if rng.random() < 0.75:
            s = seed(rng).encode("latin-1")
            return fuzzsrc.mutate(rng, s, _SD) if rng.random() < 0.5 else s
        return fuzzsrc.gen(rng, _SD)
    o = ["-zI"] if rng.random() < 0.8 else []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        o += rng.choice(OPTS).split(" ") if rng.random() < 0.97 else [""]
    args = rng.choice([["t.c"]] * 20 + [[], ["nosuch.c"], ["t.c", "t.c"], ["."], [""], ["-o", "nodir/x", "t.c"]])
    return {"opts": o, "args": args, "src": text().decode("latin-1"), "h": text().decode("latin-1") if rng.random() < 0.2 else None}


def check(tc, data, work):
    src = data["src"].encode("latin-1")
    open(os.path.join(work, "t.c"), "wb").write(src)
    if data["h"] is not None:
        open(os.path.join(work, "h.h"), "wb").write(data["h"].encode("latin-1"))
    nd = src.count(b"define") + (data["h"] or "").count("define")
    r, bad = fuzzsrc.sanitized(tc, "smlrpp", data["opts"] + data["args"], work, stdin=src if not data["args"] else b"", cpu=10 if nd > 1 else 20)
    st = {"evaluations": 1, "exit": {str(r.rc): 1}, "nontrivial_keys": [exprcheck.hash_key(data["src"] + repr(data["opts"]))] if len(src) > 16 else []}
    if bad and "did not end" in bad and nd > 1:
        bad = None
        st["inconclusive_time"] = 1
    elif not bad and isinstance(r.rc, int) and r.rc >= 0:
        if r.rc not in (0, 1):
            bad = "exit status %s" % r.rc
        elif r.rc == 1 and not r.err:
            bad = "fails without a message"
    if bad:
        return {"msg": "smlrpp %s: %s\n%s" % (" ".join(data["opts"] + data["args"])[:300], bad, data["src"][:1500])}, st
    return None, st


def signature(data, fail):
    m = fail["msg"].split("\n")[0]
    return m.split("|")[-1][:120] if "|" in m else m.split(": ", 1)[-1][:60]


def candidates(data):
    if data["h"]:
        yield {**data, "h": None}
    for i in range(len(data["opts"])):
        yield {**data, "opts": data["opts"][:i] + data["opts"][i + 1:]}
    for b in fuzzsrc.halves(data["src"].encode("latin-1")):
        if len(b) < len(data["src"]):
            yield {**data, "src": b.decode("latin-1")}
    if data["h"]:
        for b in fuzzsrc.halves(data["h"].encode("latin-1")):
            if len(b) < len(data["h"]):
                yield {**data, "h": b.decode("latin-1")}


def sample(data):
    return {"options": data["opts"] + data["args"], "source": data["src"][:300]}
