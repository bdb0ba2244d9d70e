"""P04: the compiler's own preprocessor against smlrpp."""
import os, re
from vlib import core, cprog, ppmodel, exprcheck
from vlib.core import Infra

ID = "P04"
NEEDS = ("smlrpp", "smlrc", "smlrcmips")
QUICK = (7000, 60)
THOROUGH = (150000, 600)
TECHNIQUE = "property-based testing: generated programs rewritten with object-like macros, conditionals and includes; differential between the two preprocessors on the generated code"
LEVEL_NOTE = "Whole generated programs whose token runs are moved into nested object-like macros, split over include files and mixed with skipped groups, comments, string and character literals; the assembly code must be the same through either preprocessor."
RULE = ("Each evaluation compiles one source twice, with the built-in preprocessor and through smlrpp, and compares the assembly text (or that both refuse it). "
        "Non-trivial: the code has more than 20 instructions or data and at least three macro uses; distinct by source.")
ASSUMPTIONS = ["only the documented directives and object-like macros, no line splices, no self-referential macros, no redefinition without #undef, definitions of at most 127 characters"]

LITS = ['"a  b"', '"//x"', '"/* y */"', '"q\\"  z"', '"\\\\"', "' '", "'\\''", "'\"'", '"M1 M2"', '"#define"', '"tab\\there"', '"" "x"', '"a" /* c */ "b"', '"%d\\n"', "'\\\\'", "'/'", '"\\x41" "1"', '"\'"', '"   "', '"a /* b"']
SKIPPED = ["int zz = ;", "#define QQ 1", "#define QQ(x) x", "#include \"none.h\"", "#undef M1", "\"str\"", "/* #endif */", "// #else", "foo bar", "#line 77", "'c'", "}", "{", "#ifdef M2\nx\n#else\ny\n#endif", "\"/*\"", "", "0x1 1.5", "\"a\\\"#endif\""]


def gaps(rng, txt):
    """Random comments and spaces between the tokens of a text."""
    out = ""
    for t in ppmodel.lex(txt):
        if t.w or rng.random() < 0.1:
            out += " " * out.endswith("/") + rng.choice([" ", " ", "  ", "\t", " /* c */ ", "/**/", " /* // */ ", " /* \" */ "])
        elif out and ppmodel.spell(out.rsplit("\n", 1)[-1] + t.s)[-1:] != [t.s]:
            out += " "
        out += t.s
    return out.strip()


def gen(rng, idx, tier):
    opt = rng.choice(["-seg32", "-seg32", "-seg16", "-huge", "-unreal", "mips"])
    cfg = exprcheck.cfg_of("small" if opt == "-seg16" else "linux", False)
    for _ in range(50):
        p = cprog.PGen(rng, cfg, rng.choice([4, 8, 15, 30])).program()
        try:
            text = cprog.render(cfg, p)
        except cprog.Stop:
            continue
        break
    lines = [l for l in text.split("\n") if l.strip()]
    n = 0
    macs = []          # (name, value tokens)
    out = []
    uses = 0
    for l in lines:
        if l.lstrip().startswith("#"):
            out.append(l)
            continue
        if rng.random() < 0.1 and "(" not in l[:3]:
            k = rng.random()
            if k < 0.3:
                # a separate declaration is only valid at file scope: keep to comments and skipped text inside functions
                out.append(rng.choice(["/* %s */", "/*\n %s\n*/", "// %s"]) % rng.choice(["M1", "\"", "'", "#endif", "x"]))
            elif k < 0.7:
                d = rng.choice(["ifdef NOSUCH", "ifndef M1", "ifdef M1", "ifndef NOSUCH"])
                known = {m[0] for m in macs}
                on = (d.split()[1] in known) == d.startswith("ifdef")
                body = [rng.choice(SKIPPED) for _ in range(rng.randrange(3))]
                if on:
                    out.append("#%s\n#else\n%s\n#endif" % (d, "\n".join(body)))
                elif rng.random() < 0.5:
                    out.append("#%s\n%s\n#else\n#endif /* x */" % (d, "\n".join(body)))
                else:
                    out.append("# %s // x\n%s\n# endif" % (d, "\n".join(body)))
            elif macs and k < 0.85:
                m = macs.pop(rng.randrange(len(macs)))
                macs[:] = [x for x in macs if m[0] not in x[1]]
                out.append("#undef " + m[0])
                if rng.random() < 0.5:
                    b = "7 + 1"
                    out.append("#define %s %s" % (m[0], b))
                    macs.append((m[0], [("7")]))
        ts = ppmodel.lex(l)
        if len(ts) > 1 and rng.random() < 0.45 and n < 40:
            a = rng.randrange(len(ts))
            b = min(len(ts), a + rng.choice([1, 1, 1, 2, 3, 5, 8]))
            n += 1
            nm = "M%d" % n
            body = [t.s for t in ts[a:b]]
            dl = []
            # move part of the body into a nested macro
            if len(body) > 1 and rng.random() < 0.5:
                n += 1
                i = rng.randrange(len(body))
                j = min(len(body), i + rng.choice([1, 2]))
                dl.append("#define M%d %s" % (n, gaps(rng, " ".join(body[i:j]))))
                body[i:j] = ["M%d" % n]
                if rng.random() < 0.3:
                    dl.insert(0, "#undef M%d" % n)
            dl.append("#%sdefine %s %s%s" % (rng.choice(["", " "]), nm, gaps(rng, " ".join(body)), rng.choice(["", "", " ", " // c", " /* c */"])))
            if rng.random() < 0.4 and len(dl) < 3:
                dl.reverse()
            if max(len(x) for x in dl) < 120:
                out += dl
                macs.append((nm, body))
                uses += 1
                new = [t.s for t in ts[:a]] + [nm] + [t.s for t in ts[b:]]
                l = gaps(rng, " ".join(new)) if rng.random() < 0.5 else " ".join(new)
        out.append(l)
    # file-scope extras
    ex = []
    for i in range(rng.choice([0, 1, 3, 6])):
        k = rng.random()
        if k < 0.5:
            b = rng.choice(LITS)
            ex.append("#define S%d %s%s" % (i, b, rng.choice(["", " // c", "/* c */", "  "])))
            ex.append("char %s[] = %s;" % ("s%d" % i, rng.choice(["S%d", "\"x\" S%d", "S%d S%d", "S%d \"y\""]).replace("%d", str(i))) if b[0] == '"' else "char s%d = S%d;" % (i, i))
        elif k < 0.6:
            ex.append("int xl%d = %s;" % (i, "__LINE__"))
        elif k < 0.7:
            ex.append("char xf%d[] = __FILE__;" % i)
        elif k < 0.8:
            ex.append("#define E%d\nE%d int E%d e%d E%d = E%d 5 E%d ;" % ((i,) * 7))
        elif k < 0.9:
            ex.append("#define D%d -\nint d%d = 9 D%d-3 D%d 1;" % ((i,) * 4))
        else:
            ex.append("#define K%d sizeof(int)\n#define J%d K%d *\nint k%d[J%d 2];" % ((i,) * 5))
    out = ex + out if rng.random() < 0.5 else out + ex
    return {"items": out, "split": rng.random() < 0.3, "opt": opt, "uses": uses}


def strip(asm, mips):
    return [l for l in asm.split("\n") if l.strip() and not l.lstrip().startswith("#" if mips else ";")]


def check(tc, data, work):
    its = data["items"]
    if data["split"] and len(its) > 4:
        # the middle third stands in an included file
        a, b = len(its) // 3, 2 * len(its) // 3
        open(os.path.join(work, "m.h"), "w").write("\n".join(its[a:b]) + "\n")
        src = "\n".join(its[:a] + ['#include "m.h"'] + its[b:]) + "\n"
    else:
        src = "\n".join(its) + "\n"
    open(os.path.join(work, "t.c"), "w").write(src)
    mips = data["opt"] == "mips"
    cc = os.path.join(tc.bin, "smlrcmips" if mips else "smlrc")
    fl = [] if mips else [data["opt"]]
    p = core.run([os.path.join(tc.bin, "smlrpp"), "-U", "__STDC_VERSION__", "-zI", "t.c"], cwd=work, cpu=20)
    if p.rc == "wall":
        raise Infra("wall")
    if p.rc != 0:
        return None, {"smlrpp_rejects": 1}
    open(os.path.join(work, "t.i"), "wb").write(p.out)
    r1 = core.run([cc, *fl, "t.c", "a.asm"], cwd=work, cpu=20)
    r2 = core.run([cc, *fl, "t.i", "b.asm"], cwd=work, cpu=20)
    if "wall" in (r1.rc, r2.rc):
        raise Infra("wall")
    m1 = (r1.out + r1.err).decode("latin-1")
    m2 = (r2.out + r2.err).decode("latin-1")
    if re.search("Redefinition of macro|Too long expansion|Macro table|Macro definition too long|without #endif|preprocessor directive", m1):
        return None, {"out_of_subset": 1}
    st = {"evaluations": 1, "by_target": {data["opt"]: 1}}
    if r1.rc != r2.rc:
        return {"msg": "%s: built-in: rc %s (%s), through smlrpp: rc %s (%s)\n%s" % (data["opt"], r1.rc, m1[-200:], r2.rc, m2[-200:], src[-5000:])}, st
    if r1.rc:
        st["both_refuse"] = 1
        return None, st
    a = strip(open(os.path.join(work, "a.asm"), encoding="latin-1").read(), mips)
    b = strip(open(os.path.join(work, "b.asm"), encoding="latin-1").read(), mips)
    st["nontrivial_keys"] = [exprcheck.hash_key(src)] if len(a) > 20 and len(re.findall(r"\b[MSEDK]\d+\b", src)) > 5 else []
    st["asm_lines"] = len(a)
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return {"msg": "%s: code differs: built-in %r, through smlrpp %r\n%s" % (data["opt"], a[i:i + 3], b[i:i + 3], src[-5000:])}, st
    return None, st


def candidates(data):
    if data["split"]:
        yield {**data, "split": False}
    for i in range(len(data["items"])):
        yield {**data, "items": data["items"][:i] + data["items"][i + 1:]}


def signature(data, fail):
    return re.sub(r"\d+", "", fail["msg"][:40])


def sample(data):
    return {"source": "\n".join(data["items"])[:800], "option": data["opt"]}
