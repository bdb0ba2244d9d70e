"""P03: source positions."""
import os, re
from vlib import core, ppmodel, exprcheck
from vlib.core import Infra

ID = "P03"
NEEDS = ("smlrpp", "smlrc")
QUICK = (5000, 60)
THOROUGH = (300000, 600)
TECHNIQUE = "property-based testing: generated source layouts with known positions, checked in the preprocessor's output, __LINE__/__FILE__ and compiler diagnostics"
LEVEL_NOTE = "Random layouts over files and lines (comments, splices, includes, skipped groups, multi-line macro definitions and calls, #line) with position-carrying marker tokens; gcc -E cross-checks the expected positions."
RULE = ("Each evaluation is one set of files whose marker tokens must appear in smlrpp's output at the file and line where the source has them (by the #line directives of the output and by __LINE__ and __FILE__), and whose one invalid declaration must be diagnosed by the compiler at its file and line, "
        "through smlrpp and, where the layout uses only its features, through the built-in preprocessor. Tokens that follow a splice or a multi-line comment or call on one logical line may carry the line of any part of it. Non-trivial: at least four markers and one construct that shifts lines; distinct by source.")
ASSUMPTIONS = ["file names contain no characters that need escaping", "the compiler reports an undeclared identifier at the line where its statement stands (the generator keeps the statement and the following token on one line)"]

JUNKL = ["", "x", "/* c */", "'a'", "@ $", "#foo", "#define Q 1", "\"s\"", "/*", "*/", "// /*", "y \\", "#if 1", "#endif"]


def rand_items(rng, depth, cmode, names, simple):
    n = rng.choice([2, 4, 8, 15])
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.25:
            out.append(["text", rng.choice(["", "", " ", "\t", "/* c */ ", "/**/"]), rng.choice(["", "", " // t", " /* t */"])])
        elif k < 0.32:
            out.append(["blank", rng.choice([1, 1, 2, 3, 7, 8, 9, 16, 40])])
        elif k < 0.42:
            out.append(["mlc", rng.choice([1, 2, 5, 12]), rng.random() < 0.7])
        elif k < 0.47:
            out.append(["cmt", rng.choice([1, 2, 9])])
        elif k < 0.57:
            out.append(["skip", rng.randrange(5), [rng.choice(["", "x", "/* c */", "@ $", "#foo", "#define Q 1", "/*\n\n*/", "// c", "#if 1\n#else\n#endif", "'a'", "#line 77", "#line 7 \"no.c\"", "#include \"none\""]) for _ in range(rng.choice([0, 1, 2, 5, 20]))], rng.random() < 0.5])
        elif k < 0.62:
            out.append(["line", rng.choice([1, 2, 10, 99, 100, 1000, 32767, 40000, 70000, 2000000000]), rng.choice([None, None, "x.c", "dir/y.h", "z z.c"]), rng.random() < 0.2])
        elif k < 0.72 and depth < 3:
            out.append(["inc", rng.choice(names[depth])])
        elif not simple:
            if k < 0.78:
                out.append(["splice", rng.choice([1, 2, 3]), rng.random() < 0.3])
            elif k < 0.84:
                out.append(["def", rng.choice([0, 1, 2, 4])])
            elif k < 0.93:
                out.append(["call", rng.choice([0, 0, 1, 2, 4]), rng.choice([0, 1, 3]), rng.choice([0, 0, 1]), rng.random() < 0.5])
            elif cmode:
                out.append(["text", "", ""])
            else:
                out.append(["pos", rng.random() < 0.3])
        elif not cmode and k < 0.85:
            out.append(["pos", False])
        else:
            out.append(["text", "", ""])
    return out


def gen(rng, idx, tier):
    cmode = rng.random() < 0.35
    simple = cmode and rng.random() < 0.5
    names = [["a.h", "d/b.h"], ["c.h", "d/e.h"], ["g.h"]] if not simple else [["a.h", "b.h"], ["c.h", "e.h"], ["g.h"]]
    if rng.random() < 0.2:
        names[0].append("<s.h>")
    inc = {}
    for d, l in enumerate(names):
        for n in l:
            inc[n] = {"items": rand_items(rng, d + 1, cmode, names, simple), "nl": rng.random() < 0.8}
    data = {"cmode": cmode, "simple": simple, "items": rand_items(rng, 0, cmode, names, simple), "nl": rng.random() < 0.9, "inc": inc, "bad": rng.randrange(1000)}
    return data


class R:
    """Renders files and computes where every marker token stands."""

    def __init__(self, data):
        self.data, self.n = data, 0
        self.files = {}
        self.exp = []                  # (token, file, lo, hi)
        self.shift = 0
        self.defs = 0
        self.bad = None
        # each file is included any number of times: markers are per file text
        for n, d in data["inc"].items():
            self.files[n.strip("<>")] = self.text(n, d)
        self.files["t.c"] = self.text("t.c", data)
        self.walk("t.c")

    def mk(self):
        self.n += 1
        return ("extern int m%d;" if self.data["cmode"] else "m%d") % self.n

    def text(self, name, d):
        """-> (text, events); an event is (kind, physical line, ...)."""
        cm = self.data["cmode"]
        L, ev = [], []
        if name == "t.c" and not self.data["simple"]:
            L += ["#define LM __LINE__", "#define F(a, b) a b", "#define LN 42", "#define G() "]
        for it in d["items"]:
            k, ln = it[0], len(L) + 1
            if k == "text":
                m = self.mk()
                ev.append(("tok", m, ln, ln))
                L.append(it[1] + m + it[2])
            elif k == "blank":
                L += [""] * it[1]
            elif k == "mlc":
                a, b = self.mk(), self.mk()
                ev.append(("tok", a, ln, ln))
                L += [a + " /* c"] + ["  * c"] * (it[1] - 1)
                if it[2]:
                    ev.append(("tok", b, ln, ln + it[1]))
                    L.append("c */ " + b)
                else:
                    L.append("c */")
            elif k == "cmt":
                L += ["/*"] + ["#include \"none\""] * it[1] + ["*/"]
            elif k == "skip":
                s = ["#ifdef NOSUCH", "#ifndef __LINE__" if not self.data["simple"] else "#ifdef NOSUCH", "#if 0", "#if 1 - 1 == 2 ||\\\n 0", "#if 1\n#else"][it[1]]
                if self.data["simple"] and it[1] > 1:
                    s = "#ifdef NOSUCH"
                body = [s] + it[2]
                if self.data["simple"]:
                    body = [x for x in body if x not in ("@ $", "#if 1\n#else\n#endif", "'a'") and not x.startswith("#foo")]
                if it[3] and not s.endswith("#else"):
                    body.append("#else")
                    L += "\n".join(body).split("\n")
                    m = self.mk()
                    ev.append(("tok", m, len(L) + 1, len(L) + 1))
                    L.append(m)
                    body = []
                L += ("\n".join(body + ["#endif"])).split("\n")
            elif k == "line":
                n, f = it[1], it[2]
                if self.data["simple"] and f is None:
                    f = "w.c"
                if self.data["simple"]:
                    f = f.replace(" ", "_")
                if it[3] and not self.data["simple"]:
                    L.append("#line LN" + (' "%s"' % f if f else ""))
                    n = 42
                else:
                    L.append("#line %s%d" % ("00" if n == 10 and not self.data["simple"] else "", n) + (' "%s"' % f if f else ""))
                ev.append(("line", ln + 1, n, f))
            elif k == "inc":
                f = it[1]
                q = f if f[0] == "<" else '"%s"' % os.path.relpath(f, os.path.dirname(name) or ".")
                L.append("#include " + q)
                ev.append(("inc", f.strip("<>"), ln))
            elif k == "splice":
                a, b = self.mk(), self.mk()
                ev.append(("tok", a, ln, ln + (it[1] if it[2] else 0)))
                ev.append(("tok", b, ln, ln + it[1]))
                if it[2]:
                    L.append(a[:1] + "\\")
                    L += ["\\"] * (it[1] - 1) + [a[1:] + " " + b]
                else:
                    L.append(a + " \\")
                    L += ["\\"] * (it[1] - 1) + [b]
            elif k == "def":
                self.defs += 1
                L += ["#define D%d_%s" % (self.defs, "x") + " \\"] + [" a \\"] * it[1] + [" b"]
                L[-1] = " b"
            elif k == "call":
                a, b, c = self.mk(), self.mk(), self.mk()
                end = ln + it[1] + it[2] + it[3]
                for m in (a, b):
                    ev.append(("tok", m, ln, end))
                s = "F(" + "\n" * it[1] + a + "," + "\n" * it[2] + " " + b + "\n" * it[3] + ")"
                if not cm:
                    ev.append(("num", "q%d" % self.n, ln, end))
                    s += " q%d LM" % self.n
                if it[4]:
                    ev.append(("tok", c, ln, end))
                    s += " " + c
                L += s.split("\n")
            elif k == "pos":
                m = self.mk()
                ev.append(("num", m, ln, ln))
                L.append("%s %s __FILE__ ;" % (m, "LM" if it[1] and not self.data["simple"] else "__LINE__"))
            if k not in ("text", "pos"):
                self.shift += 1
        return L, ev, d["nl"]

    def walk(self, f, depth=0, pres=None):
        if depth > 5 or len(self.exp) > 3000:
            raise OverflowError
        name, off = (pres or f), 0
        for e in self.files[f][1]:
            if e[0] in ("tok", "num"):
                self.exp.append((e[1], name, e[2] + off, e[3] + off, e[0]))
            elif e[0] == "line":
                off = e[2] - e[1]
                if e[3]:
                    name = e[3]
            else:
                self.walk(e[1], depth + 1)

    def write(self, work, bad=None):
        os.makedirs(os.path.join(work, "d"), exist_ok=True)
        os.makedirs(os.path.join(work, "sys"), exist_ok=True)
        for n, (L, _, nl) in self.files.items():
            t = "\n".join(L) + ("\n" if nl else "")
            if bad:
                t = t.replace(bad, bad[7:-1] + " = zz + 1;")
            p = os.path.join(work, "sys/" + n if n == "s.h" else n)
            open(p, "w").write(t)

    def dump(self):
        return "\n".join("== %s\n%s" % (n, "\n".join(L)) for n, (L, _, nl) in self.files.items())[:3000]


LINE = re.compile(r'^#(?:line)? ?(\d+) "(.*?)"')


def positions(out):
    """Marker tokens of preprocessed text with file and line."""
    res, f, n = [], None, 0
    for l in out.split("\n"):
        m = LINE.match(l)
        if m:
            n, f = int(m.group(1)), os.path.normpath(m.group(2))
            continue
        ts = ppmodel.spell(l)
        for i, t in enumerate(ts):
            if t[0] in "mq" and t[1:].isdigit():
                nx = ts[i + 1] if i + 1 < len(ts) and ts[i + 1].isdigit() else None
                fl = ts[i + 2] if i + 2 < len(ts) and ts[i + 2][0] == '"' else None
                res.append((t, f, n, nx, fl))
        n += 1
    return res


def compare(exp, got, cm):
    for (m, f, lo, hi, kind), g in zip(exp, got):
        m = m[11:-1] if cm and m.startswith("extern int ") else m
        if g[0] != m:
            return "marker %s instead of %s" % (g[0], m)
        f = os.path.normpath(f)
        if os.path.basename(f) == "s.h":
            f = "sys/s.h"
        if g[1] != f or not lo <= g[2] <= hi:
            return "%s is at %s:%d, reported at %s:%d" % (m, f, lo, g[1], g[2])
        if kind == "num":
            if g[3] is None or not lo <= int(g[3]) <= hi:
                return "__LINE__ after %s is %s, expected %d" % (m, g[3], lo)
            if g[4] is not None and os.path.normpath(g[4].strip('"')) != f:
                return "__FILE__ after %s is %s, expected %s" % (m, g[4], f)
    if len(exp) != len(got):
        return "%d markers, expected %d" % (len(got), len(exp))
    return None


def check(tc, data, work):
    try:
        r = R(data)
    except OverflowError:
        return None, {"too_big": 1}
    r.write(work)
    cm = data["cmode"]
    g = core.run(["gcc", "-E", "-undef", "-nostdinc", "-Isys", "-x", "c", "t.c"], cwd=work, cpu=10)
    if g.rc != 0:
        return None, {"gcc_rejects": 1}
    d = compare(r.exp, positions(g.out.decode("latin-1")), cm)
    if d:
        return None, {"gcc_disagrees": 1}
    st = {"evaluations": 1, "nontrivial_keys": [exprcheck.hash_key(r.dump())] if len(r.exp) > 3 and r.shift else [], "markers": len(r.exp)}
    p = core.run([os.path.join(tc.bin, "smlrpp"), "-zI", "-Isys", "t.c"], cwd=work, cpu=10)
    if p.rc == "wall":
        raise Infra("wall")
    if p.rc != 0:
        return {"msg": "smlrpp fails (%s): %s\n%s" % (p.rc, p.err.decode("latin-1")[:300], r.dump())}, st
    d = compare(r.exp, positions(p.out.decode("latin-1")), cm)
    if d:
        return {"msg": "%s (gcc as expected)\n%s" % (d, r.dump())}, st
    if not cm or not r.exp:
        return None, st
    # one invalid declaration: the first one of its marker in processing order
    seen = {}
    for e in r.exp:
        seen.setdefault(e[0], []).append(e)
    once = [e[0] for e in r.exp]
    bad = once[data["bad"] % len(once)]
    e = seen[bad][0]
    if any(x[0] == "splice" and x[2] for q in [data, *data["inc"].values()] for x in q["items"]):
        return None, st
    r.write(work, bad)
    # a declaration standing after the invalid one must not be reached
    p = core.run([os.path.join(tc.bin, "smlrpp"), "-zI", "-Isys", "t.c"], cwd=work, cpu=10)
    open(os.path.join(work, "t.i"), "wb").write(p.out)
    ways = [("through smlrpp", ["t.i"])]
    if data["simple"]:
        ways.append(("built-in preprocessor", ["-SI", "sys", "t.c"]))
    for w, a in ways:
        c = core.run([os.path.join(tc.bin, "smlrc"), *a, "t.asm", *([] if data["bad"] % 2 else ["-seg32"])], cwd=work, cpu=10)
        txt = (c.out + c.err).decode("latin-1")
        m = re.search(r'Error in "(.*?)" \((\d+):', txt)
        if c.rc == 0 or not m:
            return {"msg": "%s: the invalid declaration of %s is not diagnosed (%s): %s\n%s" % (w, bad, c.rc, txt[:300], r.dump())}, st
        f = os.path.normpath(e[1])
        gf, gl = os.path.normpath(m.group(1)), int(m.group(2))
        if os.path.basename(f) != os.path.basename(gf) or not e[2] <= gl <= e[3]:
            return {"msg": "%s: the error in %s is at %s:%d but diagnosed at %s:%d: %s\n%s" % (w, bad, f, e[2], gf, gl, txt[:200], r.dump())}, st
        st["diagnostics"] = st.get("diagnostics", 0) + 1
    return None, st


def candidates(data):
    for n in data["inc"]:
        q = data["inc"][n]
        its = q["items"]
        if its:
            yield {**data, "inc": {**data["inc"], n: {**q, "items": []}}}
        for i in range(len(its)):
            yield {**data, "inc": {**data["inc"], n: {**q, "items": its[:i] + its[i + 1:]}}}
    for i in range(len(data["items"])):
        yield {**data, "items": data["items"][:i] + data["items"][i + 1:]}
        it = data["items"][i]
        if it[0] == "skip" and it[2]:
            for j in range(len(it[2])):
                yield {**data, "items": data["items"][:i] + [[it[0], it[1], it[2][:j] + it[2][j + 1:], it[3]]] + data["items"][i + 1:]}
        if it[0] in ("blank", "mlc", "cmt", "splice") and it[1] > 1:
            yield {**data, "items": data["items"][:i] + [[it[0], 1] + it[2:]] + data["items"][i + 1:]}
    for b in range(4):
        if data["bad"] > b:
            yield {**data, "bad": b}


def sample(data):
    return {"source": R(data).dump()[:600]}
