"""C15: options that only add output or move labels and data never change what programs do."""
import hashlib, os, re
from vlib import cexpr, cmem, core, cprog, exprcheck, memcheck, progcheck, targets
from vlib.core import Infra

ID = "C15"
NEEDS = ("tools", "smlrcmips")
QUICK = (3600, 50)
THOROUGH = (60000, 700)
TECHNIQUE = "property-based testing: generated programs compiled under generated option sets, reference evaluator and the plain build as oracles"
LEVEL_NOTE = "Random programs, expressions and shaped data under random sets of the options, one object or several assembly texts joined by the label and externs options; 32-bit x86, plus MIPS and DOS samples."
RULE = ("Each evaluation is one generated program compiled with one random set of options (-nobss, -label N, -verbose, -Wall, -winstack, leading underscores on or off with names that are assembler words, "
        "-no-externs with the assembly texts joined into one, -unsigned-char or -signed-char), run, and compared with the reference; a difference counts only if the plain build agrees with the reference. "
        "Non-trivial: at least 4 words and 1 option that alters the assembly; distinct by program and options.")
ASSUMPTIONS = ["a program that is miscompiled without any option belongs to the other properties", "two's complement, arithmetic >>, modulo conversions"]
W = {"rd": 4, "wr": 4, "as": 3, "pa": 3, "cp": 3, "fn": 2, "by": 2, "pp": 2, "pq": 2, "pf": 2, "ca": 2, "sz": 1}
KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if int long register return short signed
 sizeof static struct switch typedef union unsigned void volatile while main out asm pragma pack push pop define include""".split())
# words the assembler reserves, which are plain names in C
WORDS = ["eax", "al", "esp", "cs", "st0", "cr0", "byte", "word", "dword", "ptr", "seg", "wrt", "section", "segment", "times", "db", "dd", "resb", "equ", "incbin", "global", "common", "bits",
         "org", "align", "mov", "push", "ret", "rep", "lock", "nop", "add", "strict", "near", "rel", "abs", "offset", "a16", "o32", "end", "st", "mm0", "xmm0", "tr3", "loop", "int3", "sub", "and_"]


def setup(tc):
    targets.setup(tc, "linux", "mips", "huge", "unreal", "tiny", "small")


def gen(rng, idx, tier):
    t = "mips" if idx % 8 == 7 else ["huge", "unreal", "small", "tiny"][idx // 40 % 4] if idx % 40 == 13 else "linux"
    n = 2 if t == "linux" and rng.random() < 0.3 else 1
    uchar = rng.random() < 0.4
    ps = []
    for _ in range(n):
        k = rng.random()
        if k < 0.4:
            cfg = exprcheck.cfg_of(t, uchar)
            d = {"items": [cexpr.gen_item(rng, cfg, 14) if rng.random() < 0.85 else exprcheck.const_item(rng, cfg, 14) for _ in range(3)]}
        elif k < 0.7:
            d = progcheck_gen(rng, t, uchar, rng.choice([10, 20, 40]))
        else:
            d = memcheck_gen(rng, t, uchar)
        d["uchar"] = uchar
        ps.append(d)
    o = {"uchar": uchar}
    if uchar or rng.random() < 0.1:
        o["cs"] = 1
    if rng.random() < 0.4:
        o["nobss"] = 1
    if rng.random() < 0.5:
        o["label"] = rng.choice([0, 1, 2, 9, 10, 77, 999, 12345, 9999999, 123456789, 1000000000])
    if rng.random() < 0.3:
        o["verbose"] = 1
    if rng.random() < 0.3:
        o["Wall"] = 1
    if rng.random() < 0.3:
        o["winstack"] = rng.choice([1, 1, 4000, 5000, 9000, 20000])
    if t == "linux":
        o["under"] = rng.choice([None, None, True, False])
        o["words"] = rng.randrange(1, 1 << 30) if rng.random() < 0.4 else 0
        if n > 1 or rng.random() < 0.2:
            o["join"] = rng.choice(["objs", "text", "text"]) if n > 1 else "text"
    o["order"] = rng.randrange(1 << 16)
    return {"target": t, "progs": ps, "opt": o}


def progcheck_gen(rng, t, uchar, size):
    cfg = exprcheck.cfg_of(t, uchar)
    for _ in range(50):
        p = cprog.PGen(rng, cfg, size).program()
        try:
            cprog.Interp(cfg, p).run()
        except (cprog.Stop, cexpr.UB):
            continue
        return {"kind": "prog", "prog": p}
    raise Infra("no terminating program")


def memcheck_gen(rng, t, uchar):
    cfg = exprcheck.cfg_of(t, uchar)
    items = []
    while len(items) < 2:
        u = cmem.MGen(rng, cfg, W, **({"pack": False} if t == "mips" else {})).unit()
        try:
            cmem.run_unit(cfg, u, 0)
        except cmem.Bad:
            continue
        items.append(u)
    return {"kind": "mem", "items": items}


def text(t, p):
    """-> source, expected words"""
    cfg = exprcheck.cfg_of(t, p["uchar"])
    k = p.get("kind")
    if k == "prog":
        exp = cprog.Interp(cfg, p["prog"]).run()
        return cprog.render(cfg, p["prog"]), exp
    src, exp = (cmem if k == "mem" else cexpr).program(cfg, p["items"])
    return src, [w for x in exp for w in x]


def rename(src, f):
    """Renames identifiers outside comments, strings and character constants."""
    return re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|\b0[xX][0-9a-fA-F]+\w*|\b[0-9][\w.]*|[A-Za-z_]\w*',
                  lambda m: f(m.group(0)) if (m.group(0)[0].isalpha() or m.group(0)[0] == "_") else m.group(0), src)


def idents(src):
    s = set()
    rename(src, lambda w: s.add(w) or w)
    return s - KEYWORDS


def spell(src):
    """Writes every plain char as unsigned char, but for the type of strings, which the caller's sources do not depend on."""
    prev = [""]

    def f(w):
        r = "unsigned char" if w == "char" and prev[0] not in ("signed", "unsigned") else w
        prev[0] = w
        return r
    return re.sub(r"(?<!L)'\\x[89a-fA-F][0-9a-fA-F]'", r"(unsigned char)\g<0>", rename(src, f))


def pad_locals(src, n):
    """Gives some functions a large frame."""
    k = [0]

    def f(m):
        k[0] += 1
        return m.group(0) + ("char padpad[%d];padpad[0]=1;" % n if k[0] % 3 == 1 else "")
    # a function body opens after a parameter list, on the same or on the next line, at the start of a declaration
    return re.sub(r"(?m)^(?:static )?[a-z][\w *]*\([^;{}=]*\)\n?\{", f, src)


def flags(o, plain):
    f = []
    if o.get("cs"):
        f.append(["-unsigned-char" if o["uchar"] else "-signed-char"])
    if plain:
        return f
    for k in ("nobss", "verbose", "Wall"):
        if o.get(k):
            f.append(["-" + k])
    if o.get("winstack"):
        f.append(["-winstack"])
    if o.get("under") is not None:
        f.append(["-leading-underscore" if o["under"] else "-no-leading-underscore"])
    return f


def rt(tc, under, joined, work):
    """The run-time for these conventions: an object or, joined, assembly text."""
    with open(os.path.join(targets.RT, "rt32.asm")) as f:
        t = f.read()
    t = re.sub(r"(?<![\w.])(flush|pos|rc|buf|hex)\b", r"zz_\1", t)
    if not under:
        t = t.replace("_out", "out").replace("_main", "main").replace("outs", "_outs")
    if joined:
        t = "\n".join(l for l in t.split("\n") if not l.startswith(("global", "extern", "bits")))
        return t.replace("section .text", "section .text\nglobal __start", 1)
    a = os.path.join(work, "zrt.asm")
    with open(a, "w") as f:
        f.write(t)
    return targets.nasm(a, work)


def build_run(tc, t, srcs, o, work, plain):
    """-> words or None, failure text"""
    fl = flags(o, plain)
    if t == "mips":
        fl = [f for f in fl if f[0] not in ("-nobss", "-winstack")]
    if t in ("tiny", "small"):
        fl = [f for f in fl if f[0] != "-winstack"]
    r = o["order"]
    fl = fl[r % (len(fl) + 1):] + fl[:r % (len(fl) + 1)]
    label = o.get("label") if not plain else None
    if label is not None:
        fl.insert(r // 7 % (len(fl) + 1), ["-label", "%d" % label])
    flat = [x for f in fl for x in f]
    if t in ("tiny", "small") or (t in ("linux", "mips") and not o.get("join") and o.get("under") is not False) or t in ("huge", "unreal") and plain:
        return exprcheck.run_target(tc, t, srcs[0], work, flat)
    if t in ("huge", "unreal"):
        # the driver does not pass -label, -nobss or -verbose on: the program is compiled by hand
        try:
            asm = targets.smlrc(tc, t, srcs[0], work, "t", flat)
            obj = targets.nasm(asm, work)
            with open(os.path.join(work, "out_.c"), "w") as f:
                f.write(targets.OUT_C)
            targets._do("smlrcc", [tc.tool("smlrcc"), "-dos" + t[0], "t.o", "out_.c", "-o", "T.EXE"], work, tc.env())
        except targets.Step as s:
            return None, str(s)
        res = targets.run_dos(work, ["T.EXE"])
        if res["T.EXE"] is None:
            return None, "DOS program did not run"
        return targets.parse_words(res["T.EXE"]), None if res["ok"] else "DOS program did not return"
    under = o.get("under") is not False if not plain else True
    join = o.get("join")
    try:
        asms, nxt = [], label
        for i, s in enumerate(srcs):
            f = list(flat)
            if join == "text" and not plain:
                f.append("-no-externs")
                if i:
                    f += ["-label", "%d" % nxt]
            a = targets.smlrc(tc, "linux", s, work, "s%d" % i, f)
            asms.append(a)
            if join == "text" and not plain:
                m = re.findall(r"(?m)^; Next label number: (-?\d+)", open(a, encoding="latin-1").read())
                if not m:
                    return None, "no next label number in the assembly text"
                nxt = int(m[-1])
        if join == "text" and not plain:
            a = os.path.join(work, "all.asm")
            with open(a, "wb") as f:
                for x in asms:
                    f.write(open(x, "rb").read() + b"\n")
                f.write(rt(tc, under, True, work).encode())
            objs = [targets.nasm(a, work)]
        else:
            objs = [targets.nasm(a, work) for a in asms] + [rt(tc, under, False, work)]
        exe = targets.link_linux(tc, objs, work, os.path.join(work, "t.exe"))
    except targets.Step as s:
        return None, str(s)
    x = targets.run_native(exe, work)
    if x.rc == "wall":
        raise Infra("wall")
    return targets.parse_words(x.out), None if x.rc == 0 else "program ended with %s" % x.rc


def sources(data):
    """-> texts, words"""
    t, o = data["target"], data["opt"]
    srcs, exp = [], []
    for p in data["progs"]:
        s, e = text(t, p)
        srcs.append(s)
        exp += e
    if o.get("winstack", 1) > 1:
        srcs = [pad_locals(s, o["winstack"]) for s in srcs]
    if len(srcs) > 1:
        srcs = [rename(s, lambda w, i=i: w if w in KEYWORDS - {"main"} else "%s_%d" % (w, i)) for i, s in enumerate(srcs)]
        srcs.append("int main(void)\n{\n" + "".join(" main_%d();\n" % i for i in range(len(srcs))) + " return 0;\n}\n")
        srcs[-1] = "".join("int main_%d(void);\n" % i for i in range(len(srcs) - 1)) + srcs[-1]
    if o.get("words"):
        import random
        rng = random.Random(o["words"])
        ws = list(WORDS)
        rng.shuffle(ws)
        for i, s in enumerate(srcs):
            ids = sorted(w for w in idents(s) if not re.match(r"main|L\d+", w))
            rng.shuffle(ids)
            m = {}
            for w in ids[:8]:
                if ws:
                    m[w] = ws.pop()
            srcs[i] = rename(s, lambda w: m.get(w, w))
    return srcs, exp


def check(tc, data, work):
    t, o = data["target"], data["opt"]
    try:
        srcs, exp = sources(data)
    except (cprog.Stop, cmem.Bad, IndexError, KeyError, cexpr.UB):
        return None, {}
    words = exp
    used = sorted(k for k in o if k not in ("order", "uchar", "cs") and o[k] not in (None, 0)) + (["label"] if o.get("label") == 0 else [])
    if o["uchar"]:
        used.append("uchar")
    st = {"evaluations": 1, "by_target": {t: 1}, "by_option": {k: 1 for k in set(used)}, "words_compared": len(words),
          "nontrivial_keys": [hashlib.md5(repr((srcs, o)).encode()).hexdigest()[:12]] if len(words) >= 4 and set(used) - {"verbose", "Wall"} else []}

    def go(plain, w):
        d = os.path.join(work, w)
        os.makedirs(d)
        got, err = build_run(tc, t, srcs, o, d, plain)
        if got is None:
            return err
        if err or exp != got:
            n = next((i for i in range(min(len(exp), len(got))) if exp[i] != got[i]), min(len(exp), len(got)))
            return "from word %d: expected %s, got %s %s" % (n, exprcheck.hexs(exp[n:n + 6]), exprcheck.hexs(got[n:n + 6]), err or "")
        return None
    bad = go(False, "a")
    if not bad:
        return None, st
    if o["uchar"]:
        # the same program without the option: its plain chars are written out as unsigned
        srcs = [spell(s) for s in srcs]
        o = {**o, "uchar": False, "cs": 0}
    if go(True, "b"):
        st["plain_build_also_wrong"] = 1
        return None, st
    return {"msg": "%s with options %s: %s\n%s" % (t, {k: v for k, v in data["opt"].items() if v}, bad, "\n".join("== %d\n%s" % x for x in enumerate(srcs)))[:12000]}, st


def candidates(data):
    o = data["opt"]
    if len(data["progs"]) > 1:
        for i in range(len(data["progs"])):
            yield {**data, "progs": data["progs"][:i] + data["progs"][i + 1:], "opt": {**o, "join": "text"}}
    for k in list(o):
        if k in ("join",) and len(data["progs"]) > 1:
            continue
        if k not in ("order", "uchar", "cs") and o[k]:
            yield {**data, "opt": {x: v for x, v in o.items() if x != k}}
    for i, p in enumerate(data["progs"]):
        d = {**p, "target": data["target"]}
        mod = {"prog": progcheck, "mem": memcheck}.get(p.get("kind"), exprcheck)
        n = 0
        if p.get("kind") != "prog" and len(p["items"]) > 1:
            for it in p["items"]:
                yield {**data, "progs": data["progs"][:i] + [{**p, "items": [it]}] + data["progs"][i + 1:]}
        elif not (p.get("kind") == "prog" and p["uchar"]) and not (p.get("kind") == "mem" and p["uchar"]):
            for c in mod.candidates(d):
                n += 1
                if c.get("uchar") != p["uchar"]:
                    continue
                c = {k: v for k, v in c.items() if k != "target"}
                yield {**data, "progs": data["progs"][:i] + [c] + data["progs"][i + 1:]}


def sample(data):
    try:
        return {"target": data["target"], "options": {k: v for k, v in data["opt"].items() if v}, "source": sources(data)[0][0][:1500]}
    except (cprog.Stop, cmem.Bad, IndexError, KeyError, cexpr.UB):
        return {}
