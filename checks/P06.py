"""P06: which file an #include names, and include guards."""
import os, re
from vlib import core, ppmodel, exprcheck
from vlib.core import Infra

ID = "P06"
NEEDS = ("smlrpp", "smlrc")
QUICK = (9000, 45)
THOROUGH = (200000, 500)
TECHNIQUE = "property-based testing: generated directory trees, search paths and include graphs with guards, reference interpreter and gcc -E as oracles"
LEVEL_NOTE = "Random files of the same names in several directories, search options in random order, all forms of #include, and include guards of every shape, including ones that must not be taken for guards."
RULE = ("Each evaluation is one tree of files and search options; the sequence of marker tokens that reaches the output (of smlrpp, or as calls in the code of smlrc with its own preprocessor) must be the one the reference interpreter derives from the documented search order and the text of the files (for smlrpp gcc -E must agree). "
        "Non-trivial: at least three inclusions, one of a file that was already included or whose name exists in two places; distinct by tree and options.")
ASSUMPTIONS = ["#include \"f\" looks in the directory of the including file (smlrpp, as in gcc) or in the current directory (smlrc, documented), then in -I, then in -J/-SI directories in the order given; <f> in -I and -J (smlrpp) or -SI (smlrc) directories"]

DIRS = ["", "a", "b", "a/c", "s"]
NAMES = ["x.h", "y.h", "z.h"]
GUARDS = ["G1", "G2", "G3", "G4"]


def inc(rng, pp):
    n = rng.choice(NAMES)
    k = rng.random()
    if k < 0.45:
        f = '"%s"' % n
    elif k < 0.75:
        f = "<%s>" % n
    else:
        f = rng.choice(['"a/%s"', '"./%s"', '"../%s"', '"a/c/%s"', '"c/%s"', "<a/%s>", "<c/%s>", '"b/../%s"']) % n
    return ["include", f, pp and rng.random() < 0.15]


def body(rng, pp, me, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.4:
            out.append(["mark"])
        elif k < 0.75:
            out.append(inc(rng, pp))
        elif k < 0.85:
            out.append(["undef", rng.choice(GUARDS)])
        elif k < 0.9:
            out.append(["define", rng.choice(GUARDS)])
        else:
            out += [[rng.choice(["ifdef", "ifndef"]), rng.choice(GUARDS)], ["mark"]] + ([["else"], ["mark"]] if rng.random() < 0.4 else []) + [["endif"]]
    return out


def gen_file(rng, pp, me):
    b = lambda n=2: body(rng, pp, me, rng.randrange(0, n + 1))
    g = rng.choice(GUARDS)
    k = rng.randrange(13)
    gd = [["ifndef", g], ["define", g]]
    if not pp and k in (7, 8):
        k = 1
    if k == 0:
        r = b(3)
    elif k in (1, 2, 3):
        r = gd + b(3) + [["endif"]]
    elif k == 4:
        r = gd + b() + [["endif"], ["mark"]]
    elif k == 5:
        r = [["mark"]] + gd + b() + [["endif"]]
    elif k == 6:
        r = gd + b() + [["else"], ["mark"], ["endif"]]
    elif k == 7:
        r = [["if", "!defined(%s)" % g, [g, False]], ["define", g]] + b() + [["endif"]]
    elif k == 8:
        r = gd + b() + [["elif", "defined(%s)" % g, [g, True]], ["mark"], ["endif"]]
    elif k == 9:
        r = gd + b() + [["endif"], ["ifndef", rng.choice(GUARDS)], ["mark"], ["endif"]]
    elif k == 10:
        r = [["ifndef", g]] + b(3) + [["endif"]]
    elif k == 11:
        r = [["define", g]] + gd + b() + [["endif"]]
    else:
        r = [["ifdef", g], ["mark"], ["endif"]] + gd + [["mark"], ["endif"]]
    if rng.random() < 0.3:
        r = [["comment"]] + r
    if rng.random() < 0.3:
        r = r + [["comment"]]
    if pp and rng.random() < 0.1:
        r = [["null"]] + r
    if rng.random() < 0.15:
        r = r + [["undef", g]]
    return r


def gen(rng, idx, tier):
    pp = rng.random() < 0.7
    files = {}
    for d in DIRS:
        for n in NAMES:
            if rng.random() < 0.55:
                f = os.path.join(d, n)
                files[f] = gen_file(rng, pp, f)
    opts = []
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        opts.append([rng.choice(["I", "I", "S"]), rng.choice(DIRS[1:] + ["."])])
    items = [["mark"]] + [x for _ in range(rng.choice([1, 2, 3, 6])) for x in [inc(rng, pp)] + ([["mark"]] if rng.random() < 0.3 else []) + ([[rng.choice(["undef", "define"]), rng.choice(GUARDS)]] if rng.random() < 0.3 else [])]
    data = {"pp": pp, "files": files, "opts": opts, "items": items}
    for _ in range(40):
        try:
            Model(data)
        except Missing as e:
            ds = [d for d in e.dirs if os.path.dirname(d) in DIRS and d not in files]
            if ds and rng.random() < 0.9:
                f = rng.choice(ds)
                files[f] = gen_file(rng, pp, f)
            else:
                for its in [items] + list(files.values()):
                    its[:] = [it for it in its if not (it[0] == "include" and it[1] == str(e))]
            continue
        except TooDeep:
            pass
        break
    return data


class TooDeep(Exception):
    pass


class Missing(Exception):
    pass


class Model:
    def __init__(self, data):
        self.d, self.pp = data, data["pp"]
        self.mac, self.out, self.names, self.n, self.incs, self.multi, self.texts = set(), [], {}, 0, 0, 0, {}
        self.seen = set()
        for f, its in [("t.c", data["items"])] + list(data["files"].items()):
            self.texts[f] = self.render(f, its)
        self.run("t.c", 0)

    def render(self, f, its):
        L = []
        for i, it in enumerate(its):
            k = it[0]
            if k == "mark":
                self.n += 1
                self.names[f, i] = "m%d" % self.n
                L.append("m%d();" % self.n)
            elif k == "include":
                if it[2]:
                    L.append("#undef H\n#define H %s\n#include H" % it[1])
                else:
                    L.append("#include " + it[1])
            elif k == "comment":
                L.append("/* %s */" % f)
            elif k == "null":
                L.append("#")
            elif k in ("if", "elif"):
                L.append("#%s %s" % (k, it[1]))
            elif k == "define" and not self.pp:
                # the built-in preprocessor documents no redefinition
                L.append("#undef %s\n#define %s" % (it[1], it[1]))
            else:
                L.append("#" + " ".join(it))
        d = 0
        for it in its:
            d += (it[0] in ("if", "ifdef", "ifndef")) - (it[0] == "endif")
            if d < 0 or not d and it[0] in ("else", "elif"):
                raise IndexError
        if d:
            raise IndexError
        return "\n".join(L) + "\n"

    def find(self, spec, cur):
        n = spec[1:-1]
        quote = spec[0] == '"'
        sysd = [d for k, d in self.d["opts"] if k == "S"]
        usr = [d for k, d in self.d["opts"] if k == "I"]
        if self.pp:
            ds = ([os.path.dirname(cur)] if quote else []) + usr + sysd
        else:
            ds = ([""] + usr if quote else []) + sysd
        hits = []
        for d in ds:
            p = os.path.join(d, n)
            # as the file system resolves it: every directory on the way must exist
            q = []
            for c in p.split("/"):
                q.append(c)
                if c not in (".", "..") and len(q) < len(p.split("/")) and os.path.normpath("/".join(q)) not in ("a", "b", "a/c", "s"):
                    break
            else:
                p = os.path.normpath(p)
                if p in self.d["files"]:
                    hits.append(p)
        if not hits:
            e = Missing(spec)
            e.dirs = [os.path.normpath(os.path.join(d, n)) for d in ds]
            raise e
        if len(set(hits)) > 1:
            self.multi += 1
        return hits[0]

    def run(self, f, depth):
        if depth > 6 or len(self.out) > 400:
            raise TooDeep
        its = self.d["items"] if f == "t.c" else self.d["files"][f]
        st = []
        for i, it in enumerate(its):
            k = it[0]
            act = all(s[0] for s in st)
            if k in ("ifdef", "ifndef"):
                c = (it[1] in self.mac) == (k == "ifdef")
                st.append([c, c])
            elif k == "if":
                c = (it[2][0] in self.mac) == it[2][1]
                st.append([c, c])
            elif k == "elif":
                c = not st[-1][1] and (it[2][0] in self.mac) == it[2][1]
                st[-1] = [c, c or st[-1][1]]
            elif k == "else":
                st[-1] = [not st[-1][1], True]
            elif k == "endif":
                st.pop()
            elif not act:
                pass
            elif k == "mark":
                self.out.append(self.names[f, i])
            elif k == "define":
                self.mac.add(it[1])
            elif k == "undef":
                self.mac.discard(it[1])
            elif k == "include":
                g = self.find(it[1], f)
                self.incs += 1
                if g in self.seen:
                    self.multi += 1
                self.seen.add(g)
                self.run(g, depth + 1)

    def dump(self, fl):
        return "options %s\n" % " ".join(fl) + "".join("== %s\n%s" % x for x in self.texts.items() if x[0] == "t.c" or x[0] in self.seen)


def check(tc, data, work):
    try:
        m = Model(data)
    except (TooDeep, IndexError):
        return None, {"too_deep": 1}
    except Missing:
        return None, {"missing_file": 1}
    for d in DIRS[1:]:
        os.makedirs(os.path.join(work, d), exist_ok=True)
    for f, t in m.texts.items():
        if f == "t.c" and not data["pp"]:
            t = "void f(void) {\n" + t + "}\n"
        open(os.path.join(work, f), "w").write(t)
    st = {"evaluations": 1, "inclusions": m.incs, "nontrivial_keys": [exprcheck.hash_key(repr(data))] if m.incs > 2 and m.multi else [], "smlrpp" if data["pp"] else "smlrc": 1}
    if data["pp"]:
        fl = [x for k, d in data["opts"] for x in (["-I", d] if k == "I" else ["-idirafter", d])]
        g = core.run(["gcc", "-E", "-P", "-undef", "-nostdinc", *fl, "t.c"], cwd=work, cpu=10)
        got = re.findall(r"\bm\d+\b", g.out.decode())
        if g.rc or got != m.out:
            # gcc drops a directory that is named twice or is also a system directory
            return None, {"gcc_disagrees": 1}
        fl = [x for k, d in data["opts"] for x in (["-I", d] if k == "I" else ["-J", d])]
        r = core.run([os.path.join(tc.bin, "smlrpp"), "-zI", "-l", *fl, "t.c"], cwd=work, cpu=10)
        got = re.findall(r"\bm\d+\b", r.out.decode())
    else:
        fl = [x for k, d in data["opts"] for x in (["-I", d] if k == "I" else ["-SI", d])]
        r = core.run([os.path.join(tc.bin, "smlrc"), "-seg32", "-no-externs", *fl, "t.c", "t.asm"], cwd=work, cpu=10)
        p = os.path.join(work, "t.asm")
        got = re.findall(r"call\s+_(m\d+)", open(p).read()) if os.path.exists(p) else []
    if r.rc == "wall":
        raise Infra("wall")
    if r.rc != 0:
        return {"msg": "fails (%s): %s\n%s" % (r.rc, (r.err + r.out).decode("latin-1")[-300:] if not data["pp"] else r.err.decode("latin-1")[:300], m.dump(fl))}, st
    if got != m.out:
        return {"msg": "%s: got %s, expected %s\n%s" % ("smlrpp" if data["pp"] else "smlrc", " ".join(got), " ".join(m.out), m.dump(fl))}, st
    return None, st


def candidates(data):
    for f in list(data["files"]):
        yield {**data, "files": {k: v for k, v in data["files"].items() if k != f}}
    for i in range(len(data["opts"])):
        yield {**data, "opts": data["opts"][:i] + data["opts"][i + 1:]}
    for f, its in data["files"].items():
        for i in range(len(its)):
            for j in range(i, len(its)):
                if i != j and its[j][0] != "endif":
                    continue
                yield {**data, "files": {**data["files"], f: its[:i] + its[j + 1:]}}
                if i != j:
                    yield {**data, "files": {**data["files"], f: its[:i] + its[i + 1:j] + its[j + 1:]}}


def sample(data):
    return {"files": {k: v[:4] for k, v in list(data["files"].items())[:4]}, "options": data["opts"], "main": data["items"][:6]}
