"""C17: scopes and name spaces."""
import os
from vlib import core, targets, exprcheck
from vlib.core import Infra

ID = "C17"
NEEDS = ("smlrc", "smlrl")
QUICK = (4000, 60)
THOROUGH = (150000, 700)
TECHNIQUE = "property-based testing: generated nestings of declarations sharing names, reference resolver and interpreter as oracle, gcc cross-check of failures"
LEVEL_NOTE = "Random blocks, loops, functions and two files declaring variables, arrays, typedefs, enumerators, tags, members, labels, parameters, prototypes, statics and externs from a pool of a few names; every use shows which declaration it means."
RULE = ("Each evaluation is one program of two files, compiled, linked and run; the words it prints (values, sizes and addresses' equality that identify the declaration each name resolves to, and the life of statics) must be those of the reference resolver and interpreter. "
        "Non-trivial: at least 10 words and 3 names hidden by an inner declaration; distinct by text.")
ASSUMPTIONS = ["declarations inside sizeof, casts and parameter lists are documented as unsupported and not generated", "gcc -m32 must agree with the reference before a difference is reported"]

NAMES = ["a", "b", "c", "T"]
KW = ["struct", "union", "enum"]


class Bad(Exception):
    pass


# ---------------------------------------------------------------- generation

class G:
    def __init__(self, rng):
        self.r, self.k = rng, 10

    def uid(self):
        self.k += self.r.choice([1, 1, 2, 3])
        return self.k

    def decl(self, glob=False):
        r = self.r
        n = r.choice(NAMES)
        k = r.random()
        if k < 0.22:
            return ["var", n, self.uid(), r.random() < 0.3]
        if k < 0.3:
            return ["arr", n, self.uid(), r.choice([None, None, n, r.choice(NAMES)])]
        if k < 0.42:
            return ["typedef", n, self.uid(), r.choice([None, None, r.choice(NAMES)])]
        if k < 0.5:
            return ["tvar", r.choice(NAMES), n, r.random() < 0.2]
        if k < 0.62:
            es = []
            for e in r.sample(NAMES, r.choice([1, 1, 2, 3])):
                es.append([e, self.uid() * 10, r.choice([None, None, r.choice(NAMES)])])
            return ["enum", r.choice([None, r.choice(NAMES)]), es]
        if k < 0.74:
            return ["tag", r.choice(["struct", "union"]), n, self.uid(), r.random() < 0.3]
        if k < 0.79:
            return ["fwd", r.choice(["struct", "union"]), n]
        if k < 0.85:
            return ["ptr", r.choice(["struct", "union"]), n, r.choice(NAMES)]
        if k < 0.91:
            return ["memb", n, [[m, self.uid()] for m in r.sample(NAMES, r.choice([1, 2, 3, 4]))], r.choice([None, r.choice(NAMES)])]
        if k < 0.95 and not glob:
            return ["ext", n]
        return ["proto", "p%d" % self.uid(), r.sample(NAMES, r.choice([1, 2])), r.choice(NAMES)]

    def stmts(self, d, n):
        out = []
        for _ in range(n):
            k = self.r.random()
            if k < 0.3:
                out.append(self.decl())
            elif k < 0.55:
                out.append(["use", self.r.choice(NAMES)])
            elif k < 0.63:
                out.append(["usetag", self.r.choice(NAMES)])
            elif k < 0.7:
                out.append(["set", self.r.choice(NAMES), self.uid()])
            elif k < 0.74:
                out.append(["usem", self.r.choice(NAMES), self.r.choice(NAMES)])
            elif k < 0.78:
                out.append(["goto", self.r.choice(NAMES), self.stmts(d - 1, self.r.choice([0, 1, 2])), self.uid()])
            elif k < 0.82:
                out.append(["call", self.r.randrange(6)])
            elif k < 0.84:
                out.append(["loc", self.r.choice(NAMES), self.uid()])
            elif d > 0:
                b = self.stmts(d - 1, self.r.choice([1, 2, 3, 5]))
                t = self.r.choice(["block", "block", "if", "for", "while", "switch"])
                out.append([t, self.r.choice(NAMES) if t == "for" else None, self.uid(), b])
        return out


def gen(rng, idx, tier):
    for _ in range(200):
        g = G(rng)
        files = []
        for f in range(rng.choice([1, 1, 2])):
            top = []
            for _ in range(rng.choice([0, 2, 4, 6])):
                k = rng.random()
                if k < 0.15:
                    top.append(["fdef", rng.choice(NAMES), g.uid()])
                elif k < 0.22:
                    top.append(["ext", rng.choice(NAMES)])
                else:
                    top.append(g.decl(True))
            fn = []
            for i in range(rng.choice([1, 2, 3])):
                fn.append(["fn", f * 3 + i, rng.sample(NAMES, rng.choice([0, 1, 2])), g.stmts(3, rng.choice([3, 6, 10, 16])), g.uid()])
            items = []
            while top or fn:
                if fn and (not top or rng.random() < 0.4):
                    items.append(fn.pop(0))
                else:
                    items.append(top.pop(0))
            files.append(items)
        data = {"files": files}
        # drop what the rules of C do not allow at its place
        for _ in range(400):
            try:
                Prog(data)
            except Bad as e:
                if not prune(data["files"], e.node):
                    break
                continue
            try:
                w = Prog(data).run()
            except Bad:
                break
            if len(w) > 5:
                return data
            break
    raise Infra("no program")


def prune(files, node):
    for items in files:
        if prune_list(items, node):
            return True
    return False


def prune_list(l, node):
    for i, s in enumerate(l):
        if s is node:
            del l[i]
            return True
        for x in s:
            if isinstance(x, list) and x and isinstance(x[0], list) and isinstance(x[0][0], str) and s[0] not in ("enum", "memb"):
                if prune_list(x, node):
                    return True
    return False


# ---------------------------------------------------------------- resolution

class Prog:
    """Renders, resolves and interprets a program."""

    def __init__(self, data):
        self.files = data["files"]
        self.glob = {}             # external linkage: name -> entity
        self.fns = {}
        self.hidden = 0
        self.res = {}              # id(node) -> entity or value
        self.exts = []
        self.init = {}
        self.texts = []
        self.nfile = 0
        for items in self.files:
            for it in items:
                if it[0] == "fn":
                    if it[1] in self.fns:
                        self.bad(it)
                    self.fns[it[1]] = it
        for items in self.files:
            self.texts.append(self.file(items))
        for node, n, kind in self.exts:
            e = self.glob.get(n)
            if e is None or e["k"] != kind:
                self.bad(node)
            self.res[id(node)]["to"] = e
        self.nfile = len(self.files)

    def bad(self, node):
        e = Bad(str(node))
        e.node = node
        raise e

    def look(self, n):
        for s in reversed(self.sc):
            if n in s[0]:
                return s[0][n]
        return None

    def looktag(self, n):
        for s in reversed(self.sc):
            if n in s[1]:
                return s[1][n]
        return None

    def add(self, node, n, e):
        s = self.sc[-1]
        if n in s[0]:
            self.bad(node)
        if self.look(n):
            self.hidden += 1
        s[0][n] = e

    def addtag(self, node, n, e):
        if n in self.sc[-1][1]:
            self.bad(node)
        if self.looktag(n):
            self.hidden += 1
        self.sc[-1][1][n] = e

    def file(self, items):
        self.sc = [({}, {})]
        self.used_ext = {}
        self.loc = False
        out = ["void out(unsigned);\n"]
        for k in self.fns:
            out.append("int f%d(int x, int y);\n" % k)
        for it in items:
            if it[0] == "fn":
                out.append(self.fn(it))
            elif it[0] == "fdef":
                e = {"k": "func", "v": it[2], "glob": True}
                n = it[1]
                if n in self.glob or n in self.used_ext:
                    self.bad(it)
                self.add(it, n, e)
                self.glob[n] = e
                out.append("int %s(int %s)\n{\n return %s + %d;\n}\n" % (n, n, n, it[2]))
            else:
                out.append(self.decl(it, "", True))
        return "".join(out)

    def fn(self, it):
        params = it[2]
        self.labels = {}
        ps = {}
        for i, p in enumerate(params):
            if self.look(p):
                self.hidden += 1
            ps[p] = {"k": "var", "auto": True, "par": i}
        if len(ps) != len(params):
            self.bad(it)
        # parameters and the outermost block of the body are one scope
        self.sc.append((ps, {}))
        self.loc = True
        body = self.stmts(it[3], " ")
        self.loc = False
        self.sc.pop()
        names = list(params) + ["zx", "zy"][len(params):]
        return "int f%d(int %s, int %s)\n{\n%s return %d;\n}\n" % (it[1], names[0], names[1], body, it[4])

    def size(self, e, node):
        """sizeof of an expression naming e; only for objects and enumerators."""
        if e is None:
            self.bad(node)
        k = e["k"]
        if k == "ext":
            return 4 if e["kind"] == "var" else self.bad(node)
        if k in ("var", "ptr", "enumc"):
            return 4
        if k == "arr":
            return e["v"]
        if k == "memv":
            return 4 * len(e["m"])
        self.bad(node)

    def decl(self, s, ind, glob):
        k = s[0]
        if k == "var":
            _, n, v, st = s
            e = {"k": "var", "v": v, "auto": not glob and not st, "id": id(s)}
            if glob and not st:
                if n in self.glob:
                    self.bad(s)
                # an earlier extern of the same name is this object
                cur = self.sc[0][0].get(n)
                if cur is not None and (cur["k"] != "ext" or cur["kind"] != "var"):
                    self.bad(s)
                self.sc[0][0].pop(n, None)
                self.glob[n] = e
            elif glob and n in self.used_ext:
                self.bad(s)
            self.add(s, n, e)
            if glob and not st:
                pass
            elif glob:
                e["static"] = True
            self.res[id(s)] = e
            return "%s%sint %s = %d;\n" % (ind, "static " if st else "", n, v)
        if k == "arr":
            _, n, v, sz = s
            dim = "%d" % v
            if sz:
                e = self.look(sz)
                if e is not None and e["k"] == "typedef":
                    dim, v = "sizeof(%s) + %d" % (sz, v), e["v"] + v
                else:
                    dim, v = "sizeof %s + %d" % (sz, v), self.size(e, s) + v
            if v > 3000 or glob and n in self.used_ext:
                self.bad(s)
            e = {"k": "arr", "v": v}
            if glob:
                if n in self.glob:
                    self.bad(s)
                self.glob[n] = {"k": "taken"}
            self.add(s, n, e)
            return "%schar %s[%s];\n" % (ind, n, dim)
        if k == "typedef":
            _, n, v, o = s
            if glob and n in self.used_ext:
                self.bad(s)
            if o:
                e = self.look(o)
                if e is None or e["k"] != "typedef":
                    self.bad(s)
                if o == n and self.sc[-1][0].get(n) is e:
                    self.bad(s)
                self.add(s, n, {"k": "typedef", "v": e["v"]})
                return "%stypedef %s %s;\n" % (ind, o, n)
            self.add(s, n, {"k": "typedef", "v": v})
            return "%stypedef char %s[%d];\n" % (ind, n, v)
        if k == "tvar":
            _, t, n, st = s
            e = self.look(t)
            if e is None or e["k"] != "typedef" or glob and n in self.used_ext:
                self.bad(s)
            if t == n and self.sc[-1][0].get(n) is e:
                self.bad(s)
            if glob and not st:
                if n in self.glob:
                    self.bad(s)
                self.glob[n] = {"k": "taken"}
            self.add(s, n, {"k": "arr", "v": e["v"]})
            return "%s%s%s %s;\n" % (ind, "static " if st else "", t, n)
        if k == "enum":
            _, tag, es = s
            if tag:
                self.addtag(s, tag, {"k": "enum", "v": 4})
            t, last = [], -1
            for n, v, rel in es:
                if glob and n in self.used_ext:
                    self.bad(s)
                if rel:
                    e = self.look(rel)
                    if e is None or e["k"] != "enumc" or abs(e["v"]) > 100000:
                        self.bad(s)
                    t.append("%s = %s + %d" % (n, rel, v))
                    v = e["v"] + v
                elif v % 30 == 0 and last >= 0:
                    t.append(n)
                    v = last + 1
                else:
                    t.append("%s = %d" % (n, v))
                last = v
                self.add(s, n, {"k": "enumc", "v": v})
            return "%senum %s{%s};\n" % (ind, tag + " " if tag else "", ", ".join(t))
        if k == "tag":
            _, kw, tag, v, inner = s
            e = self.sc[-1][1].get(tag)
            if e is not None:
                if e["k"] != kw or e["v"] is not None:
                    self.bad(s)
                e["v"] = v + (4 if inner and kw == "struct" else 0)
            else:
                e = {"k": kw, "v": v}
                self.addtag(s, tag, e)
            if inner:
                v4 = (v + 3) // 4 * 4
                e["v"] = v4 + 4 if kw == "struct" else max(v4, 4)
                return "%s%s %s {char %s[%d]; %s %s *T;};\n" % (ind, kw, tag, tag if tag != "T" else "a", v, kw, tag)
            return "%s%s %s {char %s[%d];};\n" % (ind, kw, tag, tag, v)
        if k == "fwd":
            _, kw, tag = s
            e = self.sc[-1][1].get(tag)
            if e is None:
                self.addtag(s, tag, {"k": kw, "v": None})
            elif e["k"] != kw:
                self.bad(s)
            return "%s%s %s;\n" % (ind, kw, tag)
        if k == "ptr":
            _, kw, tag, n = s
            e = self.looktag(tag)
            if glob:
                if n in self.used_ext or n in self.glob:
                    self.bad(s)
            if e is None:
                e = {"k": kw, "v": None}
                self.addtag(s, tag, e)
            elif e["k"] != kw:
                self.bad(s)
            if glob:
                self.glob[n] = {"k": "taken"}
            self.add(s, n, {"k": "ptr", "t": e})
            return "%s%s %s *%s;\n" % (ind, kw, tag, n)
        if k == "memb":
            _, n, ms, tag = s
            if glob:
                if n in self.glob or n in self.used_ext:
                    self.bad(s)
            if tag:
                self.addtag(s, tag, {"k": "struct", "v": 4 * len(ms)})
            if glob:
                self.glob[n] = {"k": "taken"}
            self.add(s, n, {"k": "memv", "m": dict(map(tuple, ms))})
            # automatic structures are set by assignment
            return "%sstruct %s{int %s;} %s = {%s};\n" % (ind, tag + " " if tag else "", ", ".join(m for m, _ in ms), n, ", ".join(str(v) for _, v in ms))
        if k == "ext":
            n = s[1]
            cur = self.sc[-1][0].get(n)
            g = self.sc[0][0].get(n)
            kind = "var"
            if g is not None and (g["k"] not in ("var", "ext") or g.get("static")):
                self.bad(s)
            if cur is not None:
                if not (cur is g and cur["k"] in ("var", "ext")):
                    self.bad(s)
                return "%sextern int %s;\n" % (ind, n)
            if n in self.glob and self.glob[n]["k"] != "var":
                self.bad(s)
            e = {"k": "ext", "kind": kind, "to": None}
            self.add(s, n, e)
            self.res[id(s)] = e
            self.exts.append((s, n, kind))
            self.used_ext[n] = True
            return "%sextern int %s;\n" % (ind, n)
        if k == "proto":
            _, f, ps, tag = s
            e = self.looktag(tag)
            t = ", ".join("int " + p for p in ps) + (", %s %s *x" % (e["k"], tag) if e is not None and e["k"] != "enum" else "")
            return "%sint %s(%s);\n" % (ind, f, t)
        raise KeyError(k)

    def stmts(self, l, ind):
        o = []
        for s in l:
            k = s[0]
            if k in ("var", "arr", "typedef", "tvar", "enum", "tag", "fwd", "ptr", "memb", "ext", "proto"):
                o.append(self.decl(s, ind, False))
            elif k == "use":
                e = self.look(s[1])
                if e is None:
                    self.bad(s)
                self.res[id(s)] = e
                n = s[1]
                if e["k"] in ("var", "enumc", "ext"):
                    o.append("%sout(%s);\n" % (ind, n))
                elif e["k"] == "arr":
                    o.append("%sout(sizeof %s);\n" % (ind, n))
                elif e["k"] == "typedef":
                    o.append("%sout(sizeof(%s));\n" % (ind, n))
                elif e["k"] == "func":
                    o.append("%sout(%s(3));\n" % (ind, n))
                elif e["k"] == "memv":
                    o.append("%sout(sizeof %s);\n" % (ind, n))
                elif e["k"] == "ptr":
                    if e["t"]["v"] is None:
                        self.bad(s)
                    o.append("%sout(sizeof *%s);\n" % (ind, n))
                    self.res[id(s)] = {"k": "const", "v": e["t"]["v"]}
            elif k == "usetag":
                e = self.looktag(s[1])
                if e is None or e["v"] is None:
                    self.bad(s)
                self.res[id(s)] = e
                o.append("%sout(sizeof(%s %s));\n" % (ind, e["k"], s[1]))
            elif k == "set":
                e = self.look(s[1])
                if e is None or e["k"] not in ("var", "ext"):
                    self.bad(s)
                self.res[id(s)] = e
                o.append("%s%s = %s + %d;\n" % (ind, s[1], s[1], s[2]))
            elif k == "usem":
                e = self.look(s[1])
                if e is None or e["k"] != "memv" or s[2] not in e["m"]:
                    self.bad(s)
                self.res[id(s)] = e
                o.append("%sout(%s.%s);\n" % (ind, s[1], s[2]))
            elif k == "goto":
                if s[1] in self.labels:
                    self.bad(s)
                self.labels[s[1]] = True
                self.sc.append(({}, {}))
                b = self.stmts(s[2], ind + " ")
                self.sc.pop()
                o.append("%sgoto %s;\n%s{\n%s%s}\n%s%s: out(%d);\n" % (ind, s[1], ind, b, ind, ind, s[1], s[3]))
            elif k == "loc":
                # a local typedef'd object named like the type, in its own block
                e = self.look(s[1])
                if e is None or e["k"] != "typedef":
                    self.bad(s)
                self.res[id(s)] = e
                n = s[1]
                o.append("%s{ %s %s; out(sizeof %s); { int %s = %d; out(%s); } out(sizeof %s); }\n" % (ind, n, n, n, n, s[2], n, n))
            elif k == "call":
                if s[1] not in self.fns:
                    self.bad(s)
                o.append("%sif (++depth < 4) out(f%d(%d, %d));\n%sdepth--;\n" % (ind, s[1], s[1] + 100, s[1] + 200, ind))
            else:
                self.sc.append(({}, {}))
                h = {"block": "{", "if": "if (fuel >= 0) {", "while": "{ do {", "switch": "switch (%d) { case %d: {" % (s[2], s[2])}.get(k)
                if k == "for":
                    e = {"k": "var", "auto": True}
                    self.add(s, s[1], e)
                    self.res[id(s)] = e
                    h = "for (int %s = %d; %s < %d; %s++) {" % (s[1], s[2], s[1], s[2] + 2, s[1])
                    self.sc.append(({}, {}))
                b = self.stmts(s[3], ind + " ")
                if k == "for":
                    # the body may change the counter
                    self.sc.pop()
                self.sc.pop()
                o.append("%s%s\n%s%s%s\n" % (ind, h, b, ind, {"while": "} while (fuel < 0); }", "switch": "} }"}.get(k, "}")))
        return "".join(o)

    # ------------------------------------------------------------ execution

    def run(self):
        self.out = []
        self.st = {}
        self.depth = 0
        self.steps = 0
        for k in sorted(self.fns):
            self.depth = 0
            self.out.append(self.call(k, k + 1, k + 2))
            self.out.append(self.call(k, k + 3, k + 4))
        return self.out

    def cell(self, e, fr):
        if e["k"] == "ext":
            e = e["to"]
        if e.get("auto"):
            return fr, id(e)
        if id(e) not in self.st:
            self.st[id(e)] = e["v"]
        return self.st, id(e)

    def call(self, k, x, y):
        it = self.fns[k]
        fr = {}
        fr["args"] = (x, y)
        self.exec(it[3], fr)
        return it[4]

    def get(self, e, fr):
        if e["k"] == "var" and "par" in e and id(e) not in fr:
            return fr["args"][e["par"]]
        d, i = self.cell(e, fr)
        return d[i]

    def exec(self, l, fr):
        for s in l:
            self.steps += 1
            if self.steps > 6000:
                raise Bad("long")
            k = s[0]
            if k == "var":
                e = self.res[id(s)]
                if e["auto"]:
                    fr[id(e)] = s[2]
            elif k == "use":
                e = self.res[id(s)]
                if e["k"] in ("var", "ext"):
                    v = self.get(e, fr)
                elif e["k"] == "func":
                    v = e["v"] + 3
                elif e["k"] == "memv":
                    v = 4 * len(e["m"])
                else:
                    v = e["v"]
                self.out.append(v)
            elif k == "usetag":
                self.out.append(self.tagsize(s))
            elif k == "set":
                e = self.res[id(s)]
                v = self.get(e, fr) + s[2]
                d, i = self.cell(e, fr)
                d[i] = v
            elif k == "usem":
                self.out.append(self.res[id(s)]["m"][s[2]])
            elif k == "goto":
                self.out.append(s[3])
            elif k == "loc":
                self.out += [self.res[id(s)]["v"], s[2], self.res[id(s)]["v"]]
            elif k == "call":
                self.depth += 1
                if self.depth < 4:
                    self.out.append(self.call(s[1], s[1] + 100, s[1] + 200))
                self.depth -= 1
            elif k == "for":
                e = self.res[id(s)]
                fr[id(e)] = s[2]
                while fr[id(e)] < s[2] + 2:
                    self.exec(s[3], fr)
                    fr[id(e)] += 1
            elif k in ("block", "if", "while", "switch"):
                self.exec(s[3], fr)

    def tagsize(self, s):
        return self.res[id(s)]["v"]

    def sources(self):
        m = "int fuel = 1;\nint depth;\n" + "void out(unsigned);\n" + "".join("int f%d(int, int);\n" % k for k in self.fns) + "int main(void)\n{\n"
        for k in sorted(self.fns):
            m += " depth = 0; out(f%d(%d, %d)); out(f%d(%d, %d));\n" % (k, k + 1, k + 2, k, k + 3, k + 4)
        m += " return 0;\n}\n"
        return ["extern int fuel, depth;\n" + t for t in self.texts] + [m]


def setup(tc):
    targets.setup(tc, "linux", "gcc")


def check(tc, data, work):
    try:
        p = Prog(data)
        exp = [v & 0xffffffff for v in p.run()]
    except (Bad, KeyError, IndexError):
        return None, {}
    if len(exp) > 4000:
        return None, {"too_long": 1}
    srcs = p.sources()
    st = {"evaluations": 1, "words": len(exp), "hidings": p.hidden, "nontrivial_keys": [exprcheck.hash_key("".join(srcs))] if len(exp) >= 10 and p.hidden >= 3 else []}
    fail = None
    try:
        objs = [targets.nasm(targets.smlrc(tc, "linux", s, work, "t%d" % i), work) for i, s in enumerate(srcs)]
        exe = targets.link_linux(tc, objs + [os.path.join(tc.dir, "rt", "rt32.o")], work, os.path.join(work, "t.exe"))
        r = targets.run_native(exe, work)
        if r.rc == "wall":
            raise Infra("wall")
        got = targets.parse_words(r.out)
        if got != exp or r.rc:
            i = next((i for i, (a, b) in enumerate(zip(exp, got)) if a != b), min(len(exp), len(got)))
            fail = "rc %s, word %d: expected %s, got %s" % (r.rc, i, exp[i:i + 4], got[i:i + 4])
    except targets.Step as e:
        fail = str(e)
    if fail:
        # the reference must be right about the C rules
        d = os.path.join(tc.dir, "rt")
        cs = []
        for i, s in enumerate(srcs):
            f = os.path.join(work, "r%d.c" % i)
            open(f, "w").write(s)
            cs.append(f)
        exe = os.path.join(work, "r.exe")
        g = core.run(["gcc", "-m32", "-w", "-std=gnu99", "-O0", "-ffreestanding", "-nostdlib", "-static", "-fno-pic", "-no-pie", "-fno-stack-protector", "-fno-builtin", *cs, d + "/rtgcc.o", "-o", exe], cwd=work, cpu=60)
        if g.rc:
            return None, {"gcc_rejects": 1}
        g = targets.run_native(exe, work)
        if targets.parse_words(g.out) != exp:
            return None, {"gcc_disagrees": 1}
        return {"msg": fail + "\n" + "\n".join("== file %d\n%s" % x for x in enumerate(srcs))}, st
    return None, st


def edits(l):
    for i, s in enumerate(l):
        yield l[:i] + l[i + 1:]
        for j, x in enumerate(s):
            if isinstance(x, list) and x and isinstance(x[0], list) and isinstance(x[0][0], str) and s[0] not in ("enum", "memb"):
                if s[0] in ("block", "if", "for", "while", "switch"):
                    yield l[:i] + x + l[i + 1:]
                for e in edits(x):
                    yield l[:i] + [s[:j] + [e] + s[j + 1:]] + l[i + 1:]


def candidates(data):
    for i, f in enumerate(data["files"]):
        for e in edits(f):
            yield {"files": data["files"][:i] + [e] + data["files"][i + 1:]}


def sample(data):
    try:
        return {"source": Prog(data).sources()[0][:1500]}
    except Bad:
        return {}
