"""Whole C programs: generator, interpreter (the oracle) and renderer.

A program is a JSON tree. Its observable behaviour is the sequence of words passed to out(). All arithmetic is rendered so
that it is defined in C (unsigned where it could overflow, masked shift counts and indices, non-zero divisors), every loop and
every call consumes from a finite budget, so every program terminates.
"""
from . import cexpr
from .cexpr import CNAMES, ARITH, REL, PREC, SPELL

ALEN = 8
NAMES = list("abcehijkmnqstuvwxyz") + ["aa", "bb", "tmp", "val", "cnt", "ptr", "x1", "y2"]


class Stop(Exception):
    """Budget of the interpreter ran out: the program is not used."""


# ------------------------------------------------------------------ generator

class PGen:
    def __init__(self, rng, cfg, size=40, nf=None):
        self.rng, self.cfg, self.size = rng, cfg, size
        self.vars = {}
        self.nv = 0
        self.nl = 0
        self.funcs = []
        self.nf = nf
        self.nest = 0

    def newvar(self, name, typ, kind, init=None, n=0):
        i = self.nv
        self.nv += 1
        self.vars[str(i)] = {"n": name, "t": typ, "k": kind, "init": init, "len": n}
        return i

    def typ(self):
        return self.rng.choice(self.cfg.types)

    def program(self):
        rng, cfg = self.rng, self.cfg
        self.scopes = [{}]
        self.tabs = []
        for j in range(rng.randrange(1, 6)):
            t = self.typ()
            self.declare(rng.choice(["g%d" % j, rng.choice(NAMES)]), t, rng.choice(["g", "g", "sg"]), cexpr.edge_value(rng, cfg, t))
        for j in range(rng.randrange(0, 3)):
            t = self.typ()
            self.declare("G%d" % j, t, "ga", [cexpr.edge_value(rng, cfg, t) for _ in range(ALEN)], ALEN)
        nf = self.nf or rng.randrange(1, 7)
        for j in range(nf):
            ret = rng.choice(["void"] + [self.typ() for _ in range(3)])
            params = [["int", 0]] + [[self.typ(), int(rng.random() < 0.2)] for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))]
            self.funcs.append({"name": "f%d" % j, "ret": ret, "sig": params, "static": int(rng.random() < 0.3), "params": [], "body": []})
        self.tabs = []
        cand = [j for j in range(nf)]
        if nf > 1 and rng.random() < 0.6:
            # a table of functions of equal signature: force it
            a = rng.choice(cand)
            same = [a]
            for b in cand:
                if b != a and rng.random() < 0.5:
                    self.funcs[b]["ret"], self.funcs[b]["sig"] = self.funcs[a]["ret"], [x[:] for x in self.funcs[a]["sig"]]
                    same.append(b)
            self.tabs.append([rng.choice(same) for _ in range(4)])
        for j in range(nf):
            self.gen_func(j)
        self.fn = {"ret": "int", "sig": []}
        body = self.gen_main()
        return {"vars": self.vars, "funcs": self.funcs, "tabs": self.tabs, "main": body, "fuel": rng.choice([30, 60, 120, 300]), "salt": rng.randrange(1000)}

    def declare(self, name, typ, kind, init=None, n=0):
        if name in self.scopes[-1]:
            name = "%s%d" % (name, self.nv)
        i = self.newvar(name, typ, kind, init, n)
        self.scopes[-1][name] = i
        return i

    def visible(self):
        m = {}
        for s in self.scopes:
            m.update(s)
        return [i for i in m.values() if i is not None]

    def scalars(self, local_only=False):
        return [i for i in self.visible() if not self.vars[str(i)]["len"] and self.vars[str(i)]["k"] not in ("d",)
                and (not local_only or self.vars[str(i)]["k"] in ("l", "p"))]

    def arrays(self):
        return [i for i in self.visible() if self.vars[str(i)]["len"]]

    def gen_func(self, j):
        rng, f = self.rng, self.funcs[j]
        self.fn = f
        self.scopes = self.scopes[:1] + [{}]
        self.labels = []
        self.fid = j
        for k, (t, arr) in enumerate(f["sig"]):
            if k == 0:
                f["params"].append(self.declare("d", "int", "d"))
                continue
            # parameters and the outermost block of the body are one scope
            f["params"].append(self.declare(rng.choice(NAMES), t, "pa" if arr else "p", None, ALEN if arr else 0))
        self.left = self.size
        f["body"] = self.block(0, True, top=True)
        if f["ret"] != "void":
            f["body"].append(["ret", self.rexpr(3)])
        self.place_gotos(f["body"])
        self.scopes = self.scopes[:1]

    def gen_main(self):
        self.scopes = self.scopes[:1] + [{}]
        self.fid = -1
        self.labels = []
        self.left = self.size
        b = self.block(0, True, top=True)
        for j in range(len(self.funcs)):
            if self.rng.random() < 0.7:
                b.append(self.call_stmt(j))
        self.place_gotos(b)
        self.scopes = self.scopes[:1]
        return b

    # --- statements
    def block(self, depth, jumpable, top=False, loop=0, sw=0):
        """-> list of statements in a new scope. loop/sw: nesting that break/continue can leave."""
        rng = self.rng
        if not top:
            self.scopes.append({})
        out = []
        if top or (not jumpable and rng.random() < 0.5):
            for _ in range(rng.randrange(0, 4 if top else 3)):
                out.append(self.decl())
        n = rng.randrange(1, 5 if depth else 8)
        for _ in range(n):
            if self.left <= 0:
                break
            out.append(self.stmt(depth + 1, jumpable, loop, sw))
            if not jumpable and rng.random() < 0.12:
                out.append(self.decl())
            if jumpable and rng.random() < 0.12 and len(self.labels) < 10:
                self.nl += 1
                out.append(["label", self.nl])
                self.labels.append(self.nl)
        if not top:
            self.scopes.pop()
        return out

    def decl(self):
        rng, cfg = self.rng, self.cfg
        t = self.typ()
        r = rng.random()
        name = rng.choice(NAMES)
        if r < 0.15:
            vals = [cexpr.edge_value(rng, cfg, t) for _ in range(rng.randrange(1, ALEN + 1))]
            return ["decl", self.declare(name, t, "la", None, ALEN), vals]
        if r < 0.25:
            return ["decl", self.declare(name, t, "sl", cexpr.edge_value(rng, cfg, t)), None]
        # the initializer may not mention the new name
        e = self.rexpr(3)
        saved = self.scopes[-1].get(name)
        i = self.newvar(name if saved is None else "%s%d" % (name, self.nv), t, "l")
        nm = self.vars[str(i)]["n"]
        if uses_name(e, nm, self.vars):
            e = ["lit", "5", "int", 5]
        self.scopes[-1][nm] = i
        return ["decl", i, e]

    def lv(self):
        rng = self.rng
        a = self.arrays()
        s = self.scalars()
        if a and (not s or rng.random() < 0.3):
            return ["ix", rng.choice(a), self.expr(2)]
        if s:
            return ["v", rng.choice(s)]
        return None

    def stmt(self, depth, jumpable, loop, sw):
        rng = self.rng
        self.left -= 1
        r = rng.random()
        if depth < 6 and self.left > 2:
            if r < 0.15:
                c = self.cond()
                a = self.sub(depth, jumpable, loop, sw)
                b = self.sub(depth, jumpable, loop, sw) if rng.random() < 0.5 else None
                return ["if", c, a, b]
            if r < 0.21:
                return ["while", self.cond(), self.sub(depth, jumpable, loop + 1, 0)]
            if r < 0.26:
                return ["dow", self.sub(depth, jumpable, loop + 1, 0), self.cond()]
            if r < 0.36:
                return self.for_stmt(depth, jumpable, loop)
            if r < 0.45:
                return self.switch(depth, jumpable, loop)
            if r < 0.48:
                return ["block", self.block(depth, jumpable and rng.random() < 0.5, False, loop, sw)]
        if r < 0.53 and (loop or sw):
            if sw and (not loop or rng.random() < 0.5):
                return ["break"]
            if loop:
                k = rng.choice(["break", "continue"])
                # 'break' belongs to the innermost of loop and switch; both end it
                return [k]
        if r < 0.555 and depth > 1:
            return ["ret", self.rexpr(2) if self.fn["ret"] != "void" else None] if self.fid >= 0 else ["out", ["lit", "3", "int", 3]]
        if r < 0.60:
            return ["goto", None]
        if r < 0.70:
            return ["out", self.rexpr(4)]
        if r < 0.78 and self.funcs:
            return self.call_stmt(rng.randrange(len(self.funcs)))
        if r < 0.80:
            return ["nop"]
        l = self.lv()
        if l is None:
            return ["out", self.rexpr(3)]
        if rng.random() < 0.2:
            return ["inc", rng.choice(["++", "--"]), rng.randrange(2), l]
        if rng.random() < 0.25:
            c = self.call_expr()
            if c is not None:
                if l[0] == "ix":
                    l = ["ix", l[1], self.local_expr(1)]
                return ["asg", "=", l, c]
        op = rng.choice(["="] * 6 + ["+=", "-=", "*=", "^=", "|=", "&=", "/=", "%=", "<<=", ">>="])
        e = self.expr(4)
        if op in ("/=", "%="):
            e = ["lit", "%d" % 7, "int", 7] if rng.random() < 0.5 else ["bin", "|", ["cast", "uint", e], ["lit", "1", "int", 1]]
        elif op in ("<<=", ">>="):
            e = ["bin", "&", e, ["lit", "7", "int", 7]]
            if op == "<<=" and self.cfg.signed(self.vars[str(l[1])]["t"]):
                op = ">>="
        elif op in ("+=", "-=", "*="):
            e = ["cast", "uint", e]
        return ["asg", op, l, e]

    def sub(self, depth, jumpable, loop, sw):
        if self.rng.random() < 0.3:
            s = self.stmt(depth + 1, False, loop, sw)
            return s
        return ["block", self.block(depth, jumpable and self.rng.random() < 0.4, False, loop, sw)]

    def for_stmt(self, depth, jumpable, loop):
        rng = self.rng
        self.scopes.append({})
        dv = not jumpable and rng.random() < 0.3
        if dv:
            t = rng.choice(["int", "uint", "char", "short"])
            init = ["decl", self.newvar(rng.choice("ijk"), t, "l"), ["lit", "0", "int", 0]]
            self.scopes[-1][self.vars[str(init[1])]["n"]] = init[1]
            c = ["bin", "<", ["v", init[1]], ["lit", str(rng.randrange(1, 9)), "int", 0]]
            c[3][3] = int(c[3][1])
            step = ["inc", "++", rng.randrange(2), ["v", init[1]]]
        else:
            l = self.lv()
            init = ["asg", "=", l, self.expr(2)] if l and rng.random() < 0.7 else None
            c = self.cond() if rng.random() < 0.85 else None
            l = self.lv()
            step = ["inc", rng.choice(["++", "--"]), rng.randrange(2), l] if l and rng.random() < 0.7 else None
        body = self.sub(depth, jumpable and not dv, loop + 1, 0)
        self.scopes.pop()
        return ["for", init, c, step, body]

    def switch(self, depth, jumpable, loop):
        rng, cfg = self.rng, self.cfg
        e = self.rexpr(3)
        if rng.random() < 0.7:
            e = ["bin", "&", e, ["lit", "7", "int", 7]]
        t = cfg.promote(self.static_type(e))
        lo, hi = cfg.rng(t)
        used = set()
        saved, self.left = self.left, min(self.left, 14)
        used_left = self.left
        body = []
        self.scopes.append({})

        def labels(lst, n):
            for _ in range(n):
                v = rng.choice([rng.randrange(8), rng.randrange(8), rng.randrange(8), cexpr.edge_value(rng, cfg, t)])
                v = cfg.conv(v, t)
                if v in used:
                    continue
                used.add(v)
                lst.append(["case", v])
        hasdef = [rng.random() < 0.7]
        for _ in range(rng.randrange(1, 6)):
            labels(body, rng.randrange(1, 3))
            if hasdef[0] and rng.random() < 0.3:
                hasdef[0] = False
                body.append(["default"])
            for _ in range(rng.randrange(0, 3)):
                if rng.random() < 0.12 and self.left > 3:
                    # a label inside a nested statement
                    inner = [self.stmt(depth + 2, jumpable, loop, 1)]
                    labels(inner, 1)
                    inner.append(self.stmt(depth + 2, jumpable, loop, 1))
                    if rng.random() < 0.5:
                        body.append(["if", self.cond(), ["block", inner], None])
                    else:
                        body.append(["dow", ["block", inner], self.cond()])
                else:
                    body.append(self.stmt(depth + 1, jumpable, loop, 1))
            if rng.random() < 0.6:
                body.append(["break"] if not loop or rng.random() < 0.85 else ["continue"])
        if hasdef[0]:
            body.append(["default"])
            body.append(["out", self.rexpr(2)])
        if body and body[-1][0] in ("case", "default"):
            body.append(["nop"])
        self.scopes.pop()
        self.left = saved - (used_left - self.left)
        return ["switch", e, t, body]

    def place_gotos(self, body):
        """Fills in goto targets; labels are only in blocks without declarations."""
        rng = self.rng

        def one(s):
            if s[0] == "goto":
                s[:] = ["goto", rng.choice(self.labels)] if self.labels else ["nop"]
            if s[0] == "block":
                walk(s[1])
            elif s[0] == "switch":
                walk(s[3])
            else:
                for x in substmts(s):
                    one(x)

        def walk(lst):
            for x in lst:
                one(x)
        walk(body)

    # --- expressions
    def static_type(self, e):
        return stype(self.cfg, e, self.vars, self.funcs, self.tabs)

    def cond(self):
        rng = self.rng
        if rng.random() < 0.15:
            c = self.call_expr()
            if c is not None:
                return c if rng.random() < 0.5 else ["bin", rng.choice(["&&", "||"]), c, self.expr(2)]
        if rng.random() < 0.1:
            return ["lit", "1", "int", 1]
        return self.expr(4)

    def call_expr(self):
        """A call used as a full expression operand: value-returning."""
        rng = self.rng
        if rng.random() < 0.15:
            return ["vcall", [self.local_expr(1 if self.nest else 2) for _ in range(rng.randrange(0, 5))]]
        js = [j for j in range(len(self.funcs)) if self.funcs[j]["ret"] != "void"]
        if not js:
            return None
        return self.call(rng.choice(js))

    def call(self, j):
        rng = self.rng
        args = []
        sig = self.funcs[j]["sig"]
        self.nest += 1
        nested = rng.random() < 0.2 and self.nest <= 1
        depth = 3 if self.nest <= 1 else 1
        for k, (t, arr) in enumerate(sig):
            if k == 0:
                args.append(["dm"])
            elif arr:
                a = [i for i in self.arrays() if self.vars[str(i)]["t"] == t]
                args.append(["arr", rng.choice(a)] if a else ["anon", t])
            elif nested:
                nested = False
                c = self.call_expr() if rng.random() < 0.5 else None
                args.append(c or self.local_expr(depth))
            else:
                args.append(self.local_expr(depth))
        self.nest -= 1
        for tb, tab in enumerate(self.tabs):
            if j in tab and rng.random() < 0.5:
                return ["icall", tb, self.local_expr(2), args]
        return ["call", j, args]

    def call_stmt(self, j):
        return ["call", self.call(j)]

    def rexpr(self, n):
        if self.rng.random() < 0.12:
            c = self.call_expr()
            if c is not None:
                return c
        return self.expr(n)

    def local_expr(self, n):
        return self.expr(n, True)

    def leaf(self, local_only):
        rng = self.rng
        s = self.scalars(local_only)
        if s and rng.random() < 0.7:
            return ["v", rng.choice(s)]
        v = rng.choice([0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 100, 255, 256, self.cfg.rng("int")[1], abs(cexpr.edge_value(rng, self.cfg, "uint"))])
        return cexpr.lit_int(rng, self.cfg, v)

    def expr(self, n, local_only=False):
        """An expression without side effects that is always defined."""
        rng, cfg = self.rng, self.cfg
        if n <= 1 or rng.random() < 0.2:
            return self.leaf(local_only)
        r = rng.random()
        E = lambda k=None: self.expr(k or n // 2, local_only)
        if r < 0.12 and not local_only and self.arrays():
            return ["ix", rng.choice(self.arrays()), E()]
        if r < 0.2:
            return ["un", rng.choice(["~", "!", "-"]), ["cast", "uint", E(n - 1)]] if rng.random() < 0.7 else ["un", "!", E(n - 1)]
        if r < 0.28:
            return ["cast", self.typ(), E(n - 1)]
        if r < 0.34:
            return ["cond", E(n // 3), E(n // 3), E(n // 3)]
        if r < 0.42:
            return ["bin", rng.choice(["&&", "||"]), E(), E()]
        if r < 0.58:
            return ["bin", rng.choice(REL), E(), E()]
        if r < 0.72:
            return ["bin", rng.choice(["&", "|", "^"]), E(), E()]
        if r < 0.78:
            return ["bin", rng.choice(["/", "%"]), E(), cexpr.lit_int(rng, cfg, rng.choice([1, 2, 3, 7, 8, 10, 16, 100]))]
        if r < 0.82:
            return ["bin", rng.choice(["/", "%"]), E(), ["bin", "|", ["cast", "uint", E()], ["lit", "1", "int", 1]]]
        if r < 0.88:
            c = ["bin", "&", E(), ["lit", str(8 * cfg.isz - 1), "int", 8 * cfg.isz - 1]] if rng.random() < 0.5 else cexpr.lit_int(rng, cfg, rng.randrange(8 * cfg.isz))
            a = E()
            if rng.random() < 0.6:
                return ["bin", "<<", ["cast", "uint", a], c]
            return ["bin", ">>", a, c]
        return ["bin", rng.choice(["+", "-", "*"]), ["cast", "uint", E()], E()]


def uses_name(e, nm, vars_):
    if e[0] in ("v", "ix", "arr") and vars_[str(e[1])]["n"] == nm:
        return True
    return any(uses_name(c, nm, vars_) for c in kids(e))


def kids(e):
    k = e[0]
    if k in ("un", "cast", "ix"):
        return [e[2]]
    if k == "bin":
        return [e[2], e[3]]
    if k == "cond":
        return e[1:4]
    if k == "call":
        return e[2]
    if k == "icall":
        return [e[2]] + e[3]
    if k == "vcall":
        return e[1]
    return []


def substmts(s):
    k = s[0]
    if k == "if":
        return [s[2]] + ([s[3]] if s[3] else [])
    if k == "while":
        return [s[2]]
    if k == "dow":
        return [s[1]]
    if k == "for":
        return [s[4]]
    if k == "switch":
        return [s[3]]
    if k == "block":
        return [s[1]]
    return []


def stype(cfg, e, vars_, funcs, tabs):
    k = e[0]
    T = lambda x: stype(cfg, x, vars_, funcs, tabs)
    if k == "lit":
        return e[2]
    if k in ("v", "ix"):
        return vars_[str(e[1])]["t"]
    if k == "un":
        return "int" if e[1] == "!" else cfg.promote(T(e[2]))
    if k == "bin":
        if e[1] in ("&&", "||") or e[1] in REL:
            return "int"
        if e[1] in ("<<", ">>"):
            return cfg.promote(T(e[2]))
        return cfg.uac(T(e[2]), T(e[3]))
    if k == "cond":
        return cfg.uac(T(e[2]), T(e[3]))
    if k == "cast":
        return e[1]
    if k == "call":
        return funcs[e[1]]["ret"]
    if k == "icall":
        return funcs[tabs[e[1]][0]]["ret"]
    if k == "vcall":
        return "uint"
    return "int"


# ------------------------------------------------------------------ interpreter

class Interp:
    def __init__(self, cfg, prog, limit=60000):
        self.cfg, self.p = cfg, prog
        self.vars, self.funcs = prog["vars"], prog["funcs"]
        self.out = []
        self.limit = limit
        self.g = {}
        for i, v in self.vars.items():
            if v["k"] in ("g", "sg", "sl"):
                self.g[int(i)] = [v["init"]]
            elif v["k"] == "ga":
                self.g[int(i)] = list(v["init"])
        self.fuel = prog["fuel"]
        self.anon = {t: [1, 2, 3, 4, 5, 6, 7, 8] for t in set(cfg.types)}
        self.code = {}
        self.mask = (1 << (8 * cfg.isz)) - 1
        self.stats = {}

    # flatten a function body: list of ops
    def compile(self, body):
        code, labels, fix = [], {}, []

        def emit(*op):
            code.append(list(op))
            return len(code) - 1

        def stm(s, brk, cont):
            k = s[0]
            if k in ("out", "asg", "inc", "call", "decl", "ret"):
                emit("s", s)
            elif k == "nop":
                emit("nop")
            elif k == "block":
                for x in s[1]:
                    stm(x, brk, cont)
            elif k == "if":
                j = emit("jz", s[1], None)
                stm(s[2], brk, cont)
                if s[3]:
                    j2 = emit("jmp", None)
                    code[j][2] = len(code)
                    stm(s[3], brk, cont)
                    code[j2][1] = len(code)
                else:
                    code[j][2] = len(code)
            elif k in ("while", "for"):
                if k == "for" and s[1]:
                    emit("s", s[1])
                c, b = (s[1], s[2]) if k == "while" else (s[2], s[4])
                top = len(code)
                f = emit("fuel", None)
                j = emit("jz", c, None) if c is not None else None
                B, C = [], []
                stm(b, B, C)
                for x in C:
                    code[x][1] = len(code)
                if k == "for" and s[3]:
                    emit("s", s[3])
                emit("jmp", top)
                code[f][1] = len(code)
                if j is not None:
                    code[j][2] = len(code)
                for x in B:
                    code[x][1] = len(code)
            elif k == "dow":
                top = len(code)
                B, C = [], []
                stm(s[1], B, C)
                for x in C:
                    code[x][1] = len(code)
                f = emit("fuel", None)
                emit("jnz", s[2], top)
                code[f][1] = len(code)
                for x in B:
                    code[x][1] = len(code)
            elif k == "switch":
                sw = emit("switch", s[1], s[2], {}, None)
                B = []
                swstack.append(sw)
                for x in s[3]:
                    stm(x, B, cont)
                swstack.pop()
                if code[sw][4] is None:
                    code[sw][4] = len(code)
                for x in B:
                    code[x][1] = len(code)
            elif k == "case":
                code[swstack[-1]][3][s[1]] = len(code)
            elif k == "default":
                code[swstack[-1]][4] = len(code)
            elif k == "break":
                brk.append(emit("jmp", None))
            elif k == "continue":
                cont.append(emit("jmp", None))
            elif k == "goto":
                # a backward jump costs fuel, like a loop round
                emit("gfuel", s[1])
            elif k == "label":
                labels[s[1]] = len(code)
            else:
                raise KeyError(k)
        swstack = []
        for s in body:
            stm(s, None, None)
        for op in code:
            if op[0] == "gfuel":
                op[1] = labels[op[1]]
        return code

    def run(self):
        self.call_body("main", self.p["main"], {}, None)
        # final state
        for i in sorted(self.g):
            if self.vars[str(i)]["k"] in ("g", "sg", "ga"):
                for v in self.g[i]:
                    self.emit(v)
        return self.out

    def emit(self, v):
        self.out.append(v & self.mask)
        if len(self.out) > 600:
            raise Stop

    def call_body(self, key, body, fr, ret):
        if key not in self.code:
            self.code[key] = self.compile(body)
        code = self.code[key]
        pc, n = 0, len(code)
        while pc < n:
            self.limit -= 1
            if self.limit < 0:
                raise Stop
            op = code[pc]
            pc += 1
            k = op[0]
            if k == "s":
                s = op[1]
                if s[0] == "ret":
                    return None if s[1] is None else self.cfg.conv(self.ev(s[1], fr)[0], ret or "int")
                self.simple(s, fr)
            elif k == "jz":
                if not self.ev(op[1], fr)[0]:
                    pc = op[2]
            elif k == "jnz":
                if self.ev(op[1], fr)[0]:
                    pc = op[2]
            elif k == "jmp":
                pc = op[1]
            elif k == "fuel":
                self.fuel -= 1
                if self.fuel < 0:
                    pc = op[1]
            elif k == "gfuel":
                self.fuel -= 1
                if self.fuel >= 0:
                    pc = op[1]
            elif k == "switch":
                v = self.cfg.conv(self.ev(op[1], fr)[0], op[2])
                pc = op[3].get(v, op[4])
        return None

    def cell(self, lv, fr):
        """-> (list, index, type)"""
        i = lv[1]
        v = self.vars[str(i)]
        st = fr[i] if i in fr else self.g[i]
        if lv[0] == "v":
            return st, 0, v["t"]
        j = self.ev(lv[2], fr)[0] & (ALEN - 1)
        return st, j, v["t"]

    def simple(self, s, fr):
        cfg, k = self.cfg, s[0]
        if k == "out":
            self.emit(self.ev(s[1], fr)[0])
        elif k == "decl":
            v = self.vars[str(s[1])]
            if v["k"] == "la":
                fr[s[1]] = [cfg.conv(x, v["t"]) for x in s[2]] + [0] * (ALEN - len(s[2]))
            elif v["k"] == "l":
                fr[s[1]] = [cfg.conv(self.ev(s[2], fr)[0], v["t"])]
        elif k == "call":
            self.ev(s[1], fr)
        elif k == "inc":
            st, j, t = self.cell(s[3], fr)
            st[j] = cfg.conv(st[j] + (1 if s[1] == "++" else -1), t)
        elif k == "asg":
            if s[1] == "=":
                x, _ = self.ev(s[3], fr)
                st, j, t = self.cell(s[2], fr)
                st[j] = cfg.conv(x, t)
            else:
                st, j, t = self.cell(s[2], fr)
                x, tx = self.ev(s[3], fr)
                st[j] = cfg.conv(cexpr.binop(cfg, s[1][:-1], st[j], t, x, tx)[0], t)
        else:
            raise KeyError(k)

    def docall(self, f, args, fr):
        fn = self.funcs[f]
        new = {}
        for a, (t, arr), pid in zip(args, fn["sig"], fn["params"]):
            if a[0] == "dm":
                new[pid] = [(fr["d"] if "d" in fr else 6) - 1]
                new["d"] = new[pid][0]
            elif a[0] == "arr":
                new[pid] = fr[a[1]] if a[1] in fr else self.g[a[1]]
            elif a[0] == "anon":
                new[pid] = self.anon[a[1]]
            else:
                new[pid] = [self.cfg.conv(self.ev(a, fr)[0], t)]
        self.fuel -= 1
        if new["d"] <= 0 or self.fuel < 0:
            return 17 if fn["ret"] != "void" else None
        return self.call_body(f, fn["body"], new, fn["ret"])

    def ev(self, e, fr):
        self.limit -= 1
        if self.limit < 0:
            raise Stop
        cfg, k = self.cfg, e[0]
        if k == "lit":
            return e[3], e[2]
        if k in ("v", "ix"):
            st, j, t = self.cell(e, fr)
            return st[j], t
        if k == "un":
            v, t = self.ev(e[2], fr)
            if e[1] == "!":
                return int(not v), "int"
            t = cfg.promote(t)
            return cfg.conv(-v if e[1] == "-" else ~v if e[1] == "~" else v, t), t
        if k == "bin":
            a, ta = self.ev(e[2], fr)
            if e[1] in ("&&", "||"):
                if bool(a) == (e[1] == "||"):
                    return int(e[1] == "||"), "int"
                return int(bool(self.ev(e[3], fr)[0])), "int"
            b, tb = self.ev(e[3], fr)
            return cexpr.binop(cfg, e[1], a, ta, b, tb)
        if k == "cond":
            t = cfg.uac(self.T(e[2]), self.T(e[3]))
            return cfg.conv(self.ev(e[2] if self.ev(e[1], fr)[0] else e[3], fr)[0], t), t
        if k == "cast":
            return cfg.conv(self.ev(e[2], fr)[0], e[1]), e[1]
        if k == "call":
            return self.docall(e[1], e[2], fr), self.funcs[e[1]]["ret"]
        if k == "icall":
            tab = self.p["tabs"][e[1]]
            f = tab[self.ev(e[2], fr)[0] & 3]
            return self.docall(f, e[3], fr), self.funcs[f]["ret"]
        if k == "vcall":
            r = len(e[1])
            for a in e[1]:
                r = (r * 3 + self.ev(a, fr)[0]) & self.mask
            return r, "uint"
        raise KeyError(k)

    def T(self, e):
        return stype(self.cfg, e, self.vars, self.funcs, self.p["tabs"])


# ------------------------------------------------------------------ renderer

class Render:
    def __init__(self, cfg, prog):
        self.cfg, self.p, self.vars = cfg, prog, prog["vars"]
        self.salt = prog.get("salt", 0)
        self.n = 0

    def ct(self, t):
        self.n += 1
        return cexpr.cname(t, self.salt + self.n)

    def expr(self, e, prec=0):
        s, p = self.ex(e)
        return "(" + s + ")" if p < prec else s

    def ex(self, e):
        k = e[0]
        R = self.expr
        if k == "lit":
            return e[1], 15
        if k == "v":
            return self.vars[str(e[1])]["n"], 15
        if k == "ix":
            nm = self.vars[str(e[1])]["n"]
            self.n += 1
            if (self.n + self.salt) % 5 == 0:
                return "*(%s + (%s & 7))" % (nm, R(e[2], 8)), 13
            return "%s[%s & 7]" % (nm, R(e[2], 8)), 15
        if k == "un":
            s = R(e[2], 13)
            return e[1] + (" " if s[0] in "-&+" else "") + s, 13
        if k == "bin":
            p = PREC[e[1]]
            return "%s %s %s" % (R(e[2], p), e[1], R(e[3], p + 1)), p
        if k == "cond":
            return "%s ? %s : %s" % (R(e[1], 3), R(e[2], 1), R(e[3], 2)), 2
        if k == "cast":
            return "(%s)%s" % (self.ct(e[1]), R(e[2], 13)), 13
        if k == "call":
            return "%s(%s)" % (self.p["funcs"][e[1]]["name"], self.args(e[2])), 14
        if k == "icall":
            self.n += 1
            if (self.n + self.salt) % 2:
                return "T%d[%s & 3](%s)" % (e[1], R(e[2], 8), self.args(e[3])), 14
            return "(*T%d[%s & 3])(%s)" % (e[1], R(e[2], 8), self.args(e[3])), 14
        if k == "vcall":
            return "vs(%s)" % ", ".join([str(len(e[1]))] + [R(a, 1) for a in e[1]]), 14
        raise KeyError(k)

    def args(self, args):
        o = []
        for a in args:
            if a[0] == "dm":
                o.append("d - 1" if self.inf else "5")
            elif a[0] == "arr":
                o.append(self.vars[str(a[1])]["n"])
            elif a[0] == "anon":
                o.append("A_" + a[1])
            else:
                o.append(self.expr(a, 1))
        return ", ".join(o)

    def simple(self, s):
        k = s[0]
        if k == "out":
            return "out(%s);" % self.expr(s[1], 1)
        if k == "decl":
            v = self.vars[str(s[1])]
            if v["k"] == "la":
                return "%s %s[8] = {%s};" % (self.ct(v["t"]), v["n"], ", ".join(cexpr.num(self.cfg, x) for x in s[2]))
            if v["k"] == "sl":
                return "static %s %s = %s;" % (self.ct(v["t"]), v["n"], cexpr.num(self.cfg, v["init"]))
            return "%s %s = %s;" % (self.ct(v["t"]), v["n"], self.expr(s[2], 1))
        if k == "call":
            return self.expr(s[1]) + ";"
        if k == "inc":
            l = self.expr(s[3], 14 if s[2] else 13)
            return (l + s[1] if s[2] else s[1] + l) + ";"
        if k == "asg":
            return "%s %s %s;" % (self.expr(s[2], 13), s[1], self.expr(s[3], 1))
        if k == "ret":
            return "return%s;" % ("" if s[1] is None else " " + self.expr(s[1]))
        raise KeyError(k)

    def st(self, s, ind):
        k = s[0]
        pad = " " * ind
        if k in ("out", "decl", "call", "inc", "asg", "ret"):
            return pad + self.simple(s) + "\n"
        if k == "nop":
            return pad + ";\n"
        if k == "block":
            return pad + "{\n" + self.body(s[1], ind + 1) + pad + "}\n"
        if k == "if":
            a = s[2]
            if s[3] and a[0] in ("if", "while", "for", "dow", "switch"):
                a = ["block", [a]]
            r = pad + "if (%s)\n" % self.expr(s[1]) + self.one(a, ind)
            if s[3]:
                r += pad + "else\n" + self.one(s[3], ind)
            return r
        F = "fuel-- > 0"
        if k == "while":
            return pad + "while (%s && %s)\n" % (F, self.expr(s[1], 4)) + self.one(s[2], ind)
        if k == "dow":
            return pad + "do\n" + self.one(s[1], ind) + pad + "while (%s && %s);\n" % (F, self.expr(s[2], 4))
        if k == "for":
            i = self.simple(s[1]).rstrip(";") if s[1] else ""
            c = F if s[2] is None else "%s && %s" % (F, self.expr(s[2], 4))
            t = self.simple(s[3]).rstrip(";") if s[3] else ""
            return pad + "for (%s; %s; %s)\n" % (i, c, t) + self.one(s[4], ind)
        if k == "switch":
            return pad + "switch (%s)\n" % self.expr(s[1]) + pad + "{\n" + self.body(s[3], ind + 1) + pad + "}\n"
        if k == "case":
            return pad + "case %s:\n" % cexpr.num(self.cfg, s[1])
        if k == "default":
            return pad + "default:\n"
        if k in ("break", "continue"):
            return pad + k + ";\n"
        if k == "goto":
            return pad + "if (%s) goto L%d;\n" % (F, s[1])
        if k == "label":
            return pad + "L%d:\n" % s[1]
        raise KeyError(k)

    def one(self, s, ind):
        if s[0] in ("decl", "goto", "label", "case", "default") or s[0] == "if":
            return " " * ind + "{\n" + self.st(s, ind + 1) + ("" if s[0] not in ("label", "case", "default") else " " * ind + ";\n") + " " * ind + "}\n"
        return self.st(s, ind + (0 if s[0] == "block" else 1))

    def body(self, lst, ind):
        r = []
        for i, s in enumerate(lst):
            r.append(self.st(s, ind))
            # a label needs a statement, and declarations are not statements
            if s[0] in ("label", "case", "default") and (i + 1 == len(lst) or lst[i + 1][0] == "decl"):
                r.append(" " * ind + ";\n")
        return "".join(r)

    def sig(self, f, names=True):
        ps = []
        for j, (t, arr) in enumerate(f["sig"]):
            nm = self.vars[str(f["params"][j])]["n"] if names else ""
            self.n += 1
            ps.append("%s %s%s" % (self.ct(t), "*" if arr and (self.n + self.salt) % 2 else "", nm) + ("[%s]" % (8 if names else "") if arr and not (self.n + self.salt) % 2 else ""))
        return ", ".join(ps)

    def program(self):
        cfg, p = self.cfg, self.p
        o = ["void out(unsigned);\nint fuel = %d;\n" % p["fuel"],
             "unsigned vs(int n, ...)\n{\n char *p = (char*)&n + sizeof n;\n unsigned r = n;\n"
             " while (n-- > 0) { r = r * 3u + *(unsigned*)p; p += sizeof(unsigned); }\n return r;\n}\n"]
        used = set()

        def scan(e):
            if isinstance(e, list):
                if len(e) == 2 and e[0] == "anon":
                    used.add(e[1])
                for x in e:
                    scan(x)
        scan([f["body"] for f in p["funcs"]])
        scan(p["main"])
        for t in sorted(used):
            o.append("%s A_%s[8] = {1,2,3,4,5,6,7,8};\n" % (CNAMES[t], t))
        for i, v in sorted(self.vars.items(), key=lambda x: int(x[0])):
            if v["k"] in ("g", "sg"):
                o.append("%s%s %s = %s;\n" % ("static " if v["k"] == "sg" else "", self.ct(v["t"]), v["n"], cexpr.num(cfg, v["init"])))
            elif v["k"] == "ga":
                o.append("%s %s[8] = {%s};\n" % (self.ct(v["t"]), v["n"], ", ".join(cexpr.num(cfg, x) for x in v["init"])))
        for f in p["funcs"]:
            o.append("%s%s %s(%s);\n" % ("static " if f["static"] else "", "void" if f["ret"] == "void" else CNAMES[f["ret"]], f["name"], ", ".join(
                CNAMES[t] + ("*" if arr else "") for t, arr in f["sig"])))
        for j, tab in enumerate(p["tabs"]):
            f = p["funcs"][tab[0]]
            o.append("%s (*T%d[4])(%s) = {%s};\n" % ("void" if f["ret"] == "void" else CNAMES[f["ret"]], j, ", ".join(
                CNAMES[t] + ("*" if arr else "") for t, arr in f["sig"]), ", ".join(p["funcs"][x]["name"] for x in tab)))
        self.inf = True
        for f in p["funcs"]:
            o.append("%s%s %s(%s)\n{\n" % ("static " if f["static"] else "", "void" if f["ret"] == "void" else CNAMES[f["ret"]], f["name"], self.sig(f)))
            # declarations and the budget check: the check comes first
            o.append(" if (fuel-- <= 0 || d <= 0) return%s;\n" % ("" if f["ret"] == "void" else " 17"))
            o.append(self.body(f["body"], 1))
            o.append("}\n")
        self.inf = False
        o.append("int main(void)\n{\n" + self.body([s for s in p["main"]], 1))
        o.append(self.final())
        o.append(" return 0;\n}\n")
        return "".join(o)

    def final(self):
        o = []
        # main's locals may hide globals: report from a nested function-free block by unique access functions
        o.append(" fin();\n")
        return "".join(o)


def render(cfg, prog):
    r = Render(cfg, prog)
    text = r.program()
    fin = ["void fin(void)\n{\n"]
    for i, v in sorted(prog["vars"].items(), key=lambda x: int(x[0])):
        if v["k"] in ("g", "sg"):
            fin.append(" out(%s);\n" % v["n"])
        elif v["k"] == "ga":
            fin.append("".join(" out(%s[%d]);\n" % (v["n"], j) for j in range(ALEN)))
    fin.append("}\n")
    return text.replace("int main(void)\n{\n", "".join(fin) + "int main(void)\n{\n", 1)


def stmt_edits(lst):
    """Smaller variants of a statement list."""
    for i, s in enumerate(lst):
        if s[0] not in ("label",):
            yield lst[:i] + lst[i + 1:]
    for i, s in enumerate(lst):
        for r in one_edits(s):
            yield lst[:i] + r + lst[i + 1:]


def one_edits(s):
    """Replacement lists for one statement."""
    k = s[0]
    if k == "block":
        if not any(x[0] == "decl" for x in s[1]):
            yield s[1]
        for e in stmt_edits(s[1]):
            yield [["block", e]]
    elif k == "if":
        for b in (s[2], s[3]):
            if b:
                yield [b]
        if s[3]:
            yield [["if", s[1], s[2], None]]
        for e in expr_edits(s[1]):
            yield [["if", e, s[2], s[3]]]
        for r in one_edits(s[2]):
            yield [["if", s[1], ["block", r], s[3]]]
        if s[3]:
            for r in one_edits(s[3]):
                yield [["if", s[1], s[2], ["block", r]]]
    elif k in ("while", "dow", "for"):
        bi = {"while": 2, "dow": 1, "for": 4}[k]
        yield [["block", [s[bi]]]]
        for r in one_edits(s[bi]):
            t = list(s)
            t[bi] = ["block", r]
            yield [t]
    elif k == "switch":
        for e in stmt_edits(s[3]):
            if e:
                yield [["switch", s[1], s[2], e]]
        for e in expr_edits(s[1]):
            yield [["switch", e, "int", s[3]]]
    elif k in ("out", "call"):
        for e in expr_edits(s[1]):
            if k == "out":
                yield [["out", e]]
    elif k == "asg":
        for e in expr_edits(s[3]):
            yield [["asg", s[1], s[2], e]]
    elif k == "ret" and s[1]:
        for e in expr_edits(s[1]):
            yield [["ret", e]]


def expr_edits(e):
    if e[0] not in ("lit", "v"):
        yield ["lit", "1", "int", 1]
        yield ["lit", "0", "int", 0]
    for c in kids(e):
        if c[0] not in ("dm", "arr", "anon"):
            yield c
    k = e[0]
    if k in ("un", "cast", "ix"):
        for x in expr_edits(e[2]):
            yield e[:2] + [x]
    elif k == "bin":
        for x in expr_edits(e[2]):
            yield e[:2] + [x, e[3]]
        for x in expr_edits(e[3]):
            yield e[:3] + [x]
    elif k == "cond":
        for i in (1, 2, 3):
            for x in expr_edits(e[i]):
                yield e[:i] + [x] + e[i + 1:]
    elif k == "call":
        for i, a in enumerate(e[2]):
            if a[0] not in ("dm", "arr", "anon"):
                for x in expr_edits(a):
                    yield ["call", e[1], e[2][:i] + [x] + e[2][i + 1:]]


def prog_edits(p):
    for e in stmt_edits(p["main"]):
        yield {**p, "main": e}
    for j, f in enumerate(p["funcs"]):
        g = lambda b: {**p, "funcs": p["funcs"][:j] + [{**f, "body": b}] + p["funcs"][j + 1:]}
        if len(f["body"]) > 1:
            yield g(f["body"][-1:] if f["ret"] != "void" else [])
        for e in stmt_edits(f["body"]):
            if f["ret"] != "void" and (not e or e[-1][0] != "ret"):
                continue
            yield g(e)


def valid(p):
    """Uses of variables follow their declarations, labels exist, breaks have a loop."""
    ok = [True]

    def ex(e, vis):
        if e[0] in ("v", "ix", "arr"):
            if e[1] not in vis:
                ok[0] = False
        for c in kids(e):
            ex(c, vis)

    def st(s, vis, loop, sw):
        k = s[0]
        if k == "decl":
            if isinstance(s[2], list) and s[2] and isinstance(s[2][0], str):
                ex(s[2], vis)
            vis.add(s[1])
        elif k in ("out", "call"):
            ex(s[1], vis)
        elif k == "asg":
            ex(s[2], vis), ex(s[3], vis)
        elif k == "inc":
            ex(s[3], vis)
        elif k == "ret" and s[1]:
            ex(s[1], vis)
        elif k == "if":
            ex(s[1], vis)
            for b in s[2:4]:
                if b:
                    st(b, set(vis), loop, sw)
        elif k == "while":
            ex(s[1], vis), st(s[2], set(vis), 1, 0)
        elif k == "dow":
            ex(s[2], vis), st(s[1], set(vis), 1, 0)
        elif k == "for":
            v = set(vis)
            if s[1]:
                st(s[1], v, 1, 0)
            if s[2]:
                ex(s[2], v)
            if s[3]:
                st(s[3], v, 1, 0)
            st(s[4], v, 1, 0)
        elif k == "switch":
            ex(s[1], vis)
            v = set(vis)
            for x in s[3]:
                st(x, v, loop, 1)
        elif k == "block":
            v = set(vis)
            for x in s[1]:
                st(x, v, loop, sw)
        elif k == "break" and not (loop or sw) or k == "continue" and not loop or k in ("case", "default") and not sw:
            ok[0] = False
    g = {int(i) for i, v in p["vars"].items() if v["k"] in ("g", "sg", "ga")}
    for f in p["funcs"]:
        v = set(g) | set(f["params"])
        for s in f["body"]:
            st(s, v, 0, 0)
    v = set(g)
    for s in p["main"]:
        st(s, v, 0, 0)
    return ok[0]


def count(p, d):
    def st(s):
        d[s[0]] = d.get(s[0], 0) + 1
        if s[0] == "block":
            for x in s[1]:
                st(x)
        elif s[0] == "switch":
            for x in s[3]:
                st(x)
        else:
            for b in substmts(s):
                st(b)
    for f in p["funcs"]:
        for s in f["body"]:
            st(s)
    for s in p["main"]:
        st(s)
