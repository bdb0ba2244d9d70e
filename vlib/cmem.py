"""Straight-line programs over shaped data: generator, memory-model simulator (the oracle) and renderer in one.

A unit is {structs, objs, ops}; Sim(unit) executes the operations on a byte-level model of the objects while it writes the
corresponding C text, and raises Bad when an operation would be undefined (the generator then discards it).
"""
import struct as pystruct
from . import cexpr
from .cty import Types, TGen, SIGS, has_ptr, has_union


class Bad(Exception):
    pass


FLOATS = [0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 3.0, 100.0, 1e6, 0.125, 12345.0, -0.75]


def f2b(x):
    return list(pystruct.pack("<f", x))


# ------------------------------------------------------------------ values
# initial value trees: scalar int -> int; float -> float; ["n"] null; ["o", obj, path] address; ["fn", k] function;
# aggregate -> list of values (may be shorter than the aggregate); None -> no initializer

class Obj:
    __slots__ = ("name", "T", "mem", "ptr", "size", "kind")


class Sim:
    def __init__(self, cfg, unit, uid=0):
        self.cfg, self.u, self.uid = cfg, unit, uid
        self.ty = Types(cfg, unit["structs"], uid)
        self.objs = []
        self.exp = []
        self.code = []
        self.salt = unit.get("salt", 0)
        self.n = 0
        self.mask = (1 << (8 * cfg.isz)) - 1
        self.funcs = []          # extra function texts
        for k, o in enumerate(unit["objs"]):
            x = Obj()
            x.T, x.kind = o["T"], o["k"]
            x.name = {"g": "g", "sg": "t", "l": "x", "sl": "y", "gu": "w", "lu": "z", "prm": "p"}[o["k"]] + "%d_%d" % (uid, k) if o["k"] in ("g", "sg", "gu") else \
                {"l": "x", "sl": "y", "lu": "z", "prm": "p"}[o["k"]] + "%d" % k
            x.size = self.ty.size(o["T"])
            x.mem = [None] * x.size if o["k"] in ("lu",) else [0] * x.size if o["k"] in ("g", "sg", "gu", "sl", "l") else [None] * x.size
            if o["k"] == "l" and o["T"][0] in ("i", "f", "p", "fp", "e"):
                x.mem = [None] * x.size
            x.ptr = {}
            self.objs.append(x)
        for k, o in enumerate(unit["objs"]):
            if o["k"] == "gu" or o["k"] == "lu":
                if o["k"] == "gu":
                    self.nullfill(k, 0, o["T"])
                continue
            self.nullfill(k, 0, o["T"])
            self.put(k, 0, o["T"], o["init"])
            if o["k"] in ("l", "g", "sg", "sl", "prm"):
                self.undef_union_tail(k, 0, o["T"], o["init"])

    def undef_union_tail(self, k, off, T, v):
        """Bytes of a union beyond its first member are unspecified."""
        if T[0] == "a":
            es = self.ty.size(T[2])
            for i in range(T[1]):
                self.undef_union_tail(k, off + i * es, T[2], None)
        elif T[0] == "s":
            s = self.u["structs"][T[1]]
            offs, size, _ = self.ty.layout(T[1])
            if s["kind"] == "union":
                first = self.ty.size(s["mem"][0][1])
                for i in range(first, size):
                    self.objs[k].mem[off + i] = None
                self.undef_union_tail(k, off, s["mem"][0][1], None)
            else:
                for o, (_, M) in zip(offs, s["mem"]):
                    self.undef_union_tail(k, off + o, M, None)

    def nullfill(self, k, off, T):
        if T[0] in ("p", "fp"):
            self.objs[k].ptr[off] = ("n",)
            for i in range(self.ty.size(T)):
                self.objs[k].mem[off + i] = 0
        elif T[0] == "a":
            for i in range(T[1]):
                self.nullfill(k, off + i * self.ty.size(T[2]), T[2])
        elif T[0] == "s":
            s = self.u["structs"][T[1]]
            for o, (_, M) in zip(self.ty.layout(T[1])[0], s["mem"]):
                self.nullfill(k, off + o, M)

    # -- memory
    def put(self, k, off, T, v):
        if v is None:
            return
        ob = self.objs[k]
        if T[0] in ("i", "e"):
            n = self.ty.size(T)
            for i in range(n):
                ob.mem[off + i] = (v >> (8 * i)) & 255
        elif T[0] == "f":
            ob.mem[off:off + 4] = f2b(v) if isinstance(v, float) else list(pystruct.pack("<I", v))
        elif T[0] in ("p", "fp"):
            ob.ptr[off] = self.pval(v) if isinstance(v, list) else v
            for i in range(self.ty.size(T)):
                ob.mem[off + i] = 0
        elif T[0] == "a":
            es = self.ty.size(T[2])
            for i, x in enumerate(v):
                self.put(k, off + i * es, T[2], x)
        else:
            s = self.u["structs"][T[1]]
            for (nm, M), o, x in zip(s["mem"], self.ty.layout(T[1])[0], v):
                self.put(k, off + o, M, x)

    def pval(self, v):
        """Pointer value of an initializer or operand tree."""
        if v[0] == "o":
            t, p, lv = self.path(v[1])
            return ("o", lv[0], lv[1], lv[3], lv[4])
        if v[0] == "n":
            return ("n",)
        if v[0] == "str":
            x = Obj()
            x.T, x.kind, x.name = ["a", len(v[1]) + 1, ["i", "char"]], "str", None
            x.mem, x.ptr, x.size = list(v[1]) + [0], {}, len(v[1]) + 1
            self.objs.append(x)
            return ("o", len(self.objs) - 1, 0, 0, x.size)
        return ("fn", v[1])

    def get(self, k, off, T):
        ob = self.objs[k]
        if T[0] in ("p", "fp"):
            if off not in ob.ptr or ob.mem[off] is None:
                raise Bad
            return ob.ptr[off]
        n = self.ty.size(T)
        b = ob.mem[off:off + n]
        if len(b) < n or any(x is None for x in b):
            raise Bad
        if T[0] == "f":
            return pystruct.unpack("<I", bytes(b))[0]
        return self.cfg.conv(sum(x << (8 * i) for i, x in enumerate(b)), T[1] if T[0] == "i" else "int")

    # -- paths: ["obj", k] then steps; returns (text, prec, (obj, off, T, lo, hi, unions)) or pointer rvalue
    def path(self, p):
        self.n += 1
        ty = self.ty
        k = p[0][1]
        ob = self.objs[k]
        text, prec = ob.name, 15
        st = (k, 0, ob.T, 0, 1, ())
        # lo/hi: the run of equal elements around st, in elements relative to st
        for s in p[1:]:
            o, off, T, lo, hi, un = st
            if s[0] == "m":
                if T[0] != "s":
                    raise Bad
                d = self.u["structs"][T[1]]
                nm, M = d["mem"][s[1]]
                mo, size, _ = ty.layout(T[1])
                if d["kind"] == "union":
                    un = un + ((off, size),)
                if prec == 13 and text[0] == "*" and s[2]:
                    inner = text[1:].lstrip()
                    # *e . m  ->  e->m
                    text = "%s->%s" % (par(inner, self.iprec, 14), nm)
                else:
                    text = "%s.%s" % (par(text, prec, 14), nm)
                prec = 15
                st = (o, off + mo[s[1]], M, 0, 1, un)
            elif s[0] == "x":
                # subscript: form, index text kind, value
                form, v, iv = s[1], s[2], s[3]
                itext = self.itext(iv, v)
                if T[0] == "a":
                    if not 0 <= v < T[1]:
                        raise Bad
                    es = ty.size(T[2])
                    st = (o, off + v * es, T[2], -v, T[1] - v, un)
                elif T[0] == "p":
                    pv = self.get(o, off, T)
                    if pv[0] != "o":
                        raise Bad
                    if not pv[3] <= v < pv[4]:
                        raise Bad
                    es = ty.size(T[1])
                    no = pv[2] + v * es
                    if not 0 <= no <= self.objs[pv[1]].size - es:
                        raise Bad
                    st = (pv[1], no, T[1], pv[3] - v, pv[4] - v, ())
                else:
                    raise Bad
                if form == 0:
                    text, prec = "%s[%s]" % (par(text, prec, 14), itext), 15
                elif form == 1:
                    text, prec, self.iprec = "*(%s + %s)" % (par(text, prec, 11), par(itext, iprec(itext), 12)), 13, 15
                else:
                    text, prec = "%s[%s]" % (par(itext, iprec(itext), 14), text), 15
            elif s[0] == "d":
                if T[0] == "a":
                    if T[1] < 1:
                        raise Bad
                    st = (o, off, T[2], 0, T[1], un)
                elif T[0] == "p":
                    pv = self.get(o, off, T)
                    if pv[0] != "o" or not pv[3] <= 0 < pv[4]:
                        raise Bad
                    if not 0 <= pv[2] <= self.objs[pv[1]].size - ty.size(T[1]):
                        raise Bad
                    st = (pv[1], pv[2], T[1], pv[3], pv[4], ())
                else:
                    raise Bad
                if s[1] == 0:
                    self.iprec = prec
                    text, prec = "*" + par(text, prec, 13), 13
                else:
                    text, prec = "%s[0]" % par(text, prec, 14), 15
            elif s[0] == "ad":
                # *& and (&x)-> round trips
                text, prec = "*&" + par(text, prec, 13), 13
                self.iprec = 13
            else:
                raise KeyError(s[0])
            if st[2][0] == "v":
                raise Bad
        return text, prec, st

    def itext(self, iv, v):
        if iv == 0:
            return str(v)
        nm = ["", "i%d", "c%d", "u%d", "G%d", "i%d"][iv]
        if iv == 5:
            return "i%d %s %d" % (1, "+" if v >= 1 else "-", abs(v - 1))
        if not 0 <= v < 8:
            return str(v)
        return nm % v

    # -- emit
    def out(self, text, word):
        self.code.append("out(%s);" % text)
        self.exp.append(word & self.mask)

    def step(self, op):
        getattr(self, "op_" + op[0])(*op[1:])

    def rval(self, p):
        t, pr, lv = self.path(p)
        return t, pr, lv, self.get(lv[0], lv[1], lv[2])

    def store(self, lv, v):
        o, off, T, lo, hi, un = lv
        if self.objs[o].kind == "str":
            raise Bad
        for (uo, us) in un:
            for i in range(us):
                if not off <= uo + i < off + self.ty.size(T):
                    self.objs[o].mem[uo + i] = None
        self.put(o, off, T, v)

    def op_rd(self, p):
        t, pr, lv, v = self.rval(p)
        T = lv[2]
        if T[0] in ("i", "e"):
            self.out(t, v)
        elif T[0] == "f":
            self.out("*(unsigned*)&" + par(t, pr, 13), v)
        else:
            self.outptr(t, pr, T, v)

    def outptr(self, t, pr, T, v):
        if v[0] == "n":
            self.out("%s == 0" % par(t, pr, 9), 1)
        elif v[0] == "fn":
            self.out("%s == %s" % (par(t, pr, 9), fname(v[1], T)), 1)
        elif self.objs[v[1]].kind == "str":
            if not v[3] <= 0 < v[4]:
                raise Bad
            self.out("*" + par(t, pr, 13), self.cfg.conv(self.objs[v[1]].mem[v[2]], "char"))
        else:
            self.out("(char*)%s - (char*)&%s" % (par(t, pr, 13), self.objs[v[1]].name), v[2])

    def op_wr(self, p, val, form=0):
        t, pr, lv = self.path(p)
        T = lv[2]
        if T[0] == "i":
            c = self.cfg.conv(val, T[1])
            self.store(lv, c)
            self.code.append("%s = %s;" % (t, cexpr.num(self.cfg, val)))
        elif T[0] == "e":
            self.store(lv, val & 7)
            self.code.append("%s = %s;" % (t, ["A%d" % self.uid, "B%d" % self.uid][val & 1] if val & 7 < 2 else str(val & 7)))
        elif T[0] == "f":
            v = FLOATS[val % len(FLOATS)]
            self.store(lv, v)
            self.code.append("%s = %rf;" % (t, v))
        else:
            raise Bad

    def op_as(self, p, q, chain=None):
        """scalar = scalar"""
        tq, prq, lq, v = self.rval(q)
        t, pr, lv = self.path(p)
        T, Q = lv[2], lq[2]
        if T[0] in ("i", "e") and Q[0] in ("i", "e"):
            self.store(lv, self.cfg.conv(v, T[1] if T[0] == "i" else "int"))
        elif T[0] == "f" and Q[0] == "f":
            self.store(lv, v)
        elif T == Q and T[0] in ("p", "fp"):
            self.store(lv, v)
        else:
            raise Bad
        self.code.append("%s = %s;" % (t, par(tq, prq, 1)))

    def op_oa(self, op, p, val):
        t, pr, lv, v = self.rval(p)
        T = lv[2]
        if T[0] == "i":
            try:
                r, _ = cexpr.binop(self.cfg, op, v, T[1], val, "int")
            except cexpr.UB:
                raise Bad
            self.store(lv, self.cfg.conv(r, T[1]))
            self.code.append("%s %s= %s;" % (t, op, cexpr.num(self.cfg, val)))
            self.out(t, self.get(lv[0], lv[1], T))
        else:
            raise Bad

    def op_pp(self, p, op, post, used):
        """++/-- on ints and pointers"""
        t, pr, lv, v = self.rval(p)
        T = lv[2]
        d = 1 if op == "++" else -1
        if T[0] == "i":
            try:
                nv = self.cfg.conv(cexpr.binop(self.cfg, "+", v, T[1], d, "int")[0], T[1])
            except cexpr.UB:
                raise Bad
            self.store(lv, nv)
        elif T[0] == "p" and v[0] == "o":
            nv = self.padd(v, d, T[1])
            self.store(lv, nv)
        else:
            raise Bad
        e = par(t, pr, 14) + op if post else op + par(t, pr, 13)
        if not used:
            self.code.append(e + ";")
        elif T[0] == "i":
            self.out(e, v if post else nv)
        else:
            self.outptr("(%s)" % e, 15, T, v if post else nv)

    def padd(self, v, d, E):
        if not v[3] <= d <= v[4]:
            raise Bad
        es = self.ty.size(E)
        return ("o", v[1], v[2] + d * es, v[3] - d, v[4] - d)

    def op_pa(self, p, val, how):
        """pointer = address"""
        t, pr, lv = self.path(p)
        T = lv[2]
        if T[0] == "fp":
            if val[0] != "fn":
                raise Bad
            self.store(lv, ("fn", val[1]))
            self.code.append("%s = %s%s;" % (t, "&" if how % 2 else "", fname(val[1], T)))
            return
        if T[0] != "p":
            raise Bad
        text, v = self.addr(val, T, how)
        self.store(lv, v)
        self.code.append("%s = %s;" % (t, text))

    def addr(self, val, T, how):
        if val[0] == "n":
            return ["0", "(void*)0"][how % 2], ("n",)
        tq, prq, lq = self.path(val[1])
        if lq[2] == T[1]:
            return "&" + par(tq, prq, 13), ("o", lq[0], lq[1], lq[3], lq[4])
        if lq[2][0] == "a" and lq[2][2] == T[1]:
            n = lq[2][1]
            k = how % (n + 1)
            v = ("o", lq[0], lq[1] + k * self.ty.size(T[1]), -k, n - k)
            if k == 0 and how & 64:
                return tq, v
            if how & 32 and k < n:
                return "&%s[%d]" % (par(tq, prq, 14), k), v
            return "%s + %d" % (par(tq, prq, 11), k), v
        raise Bad

    def op_pq(self, p, q, rel):
        """pointer difference and comparison within one array"""
        t, pr, l, v = self.rval(p)
        t2, pr2, l2, w = self.rval(q)
        if l[2] != l2[2] or l[2][0] != "p":
            raise Bad
        if any(x[0] == "o" and self.objs[x[1]].kind == "str" for x in (v, w)):
            raise Bad
        if rel in ("==", "!="):
            if v[0] == "o" and w[0] == "o" and v[1] != w[1] and (v[4] == 0 or w[4] == 0 or v[2] >= self.objs[v[1]].size or w[2] >= self.objs[w[1]].size):
                raise Bad       # one past the end of another object
            eq = v[:3] == w[:3]
            self.out("%s %s %s" % (par(t, pr, 9), rel, par(t2, pr2, 9)), int(eq == (rel == "==")))
            return
        es = self.ty.size(l[2][1])
        if v[0] != "o" or w[0] != "o" or v[1] != w[1] or (v[2] - w[2]) % es:
            raise Bad
        if v[2] + v[3] * es != w[2] + w[3] * es:
            raise Bad
        d = (v[2] - w[2]) // es
        if rel == "-":
            self.out("%s - %s" % (par(t, pr, 11), par(t2, pr2, 12)), d)
        else:
            self.out("%s %s %s" % (par(t, pr, 10), rel, par(t2, pr2, 10)), int({"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0}[rel]))

    def op_pz(self, p, form):
        t, pr, l, v = self.rval(p)
        if l[2][0] not in ("p", "fp"):
            raise Bad
        nz = int(v[0] != "n")
        e = ["!%s" % par(t, pr, 13), "%s ? 5 : 6" % par(t, pr, 3), "%s && 1" % par(t, pr, 5), "%s != 0" % par(t, pr, 9), "0 || %s" % par(t, pr, 4)][form]
        self.out(e, [1 - nz, 5 if nz else 6, nz, nz, nz][form])

    def op_of(self, p, q):
        """byte distance of two lvalues in one object"""
        t, pr, l = self.path(p)
        t2, pr2, l2 = self.path(q)
        if l[0] != l2[0] or self.objs[l[0]].kind == "str":
            raise Bad
        self.out("(char*)&%s - (char*)&%s" % (par(t, pr, 13), par(t2, pr2, 13)), l[1] - l2[1])

    def op_sz(self, p, form):
        t, pr, l = self.path(p)
        self.out("sizeof %s" % par(t, pr, 13) if form and t[0] != "(" else "sizeof(%s)" % t, self.ty.size(l[2]))

    def op_st(self, p, form):
        """stride of pointer arithmetic"""
        t, pr, l = self.path(p)
        if l[2][0] == "a":
            if form:
                self.out("(char*)(%s + 1) - (char*)%s" % (par(t, pr, 11), par(t, pr, 13)), self.ty.size(l[2][2]))
            else:
                self.out("(char*)(&%s + 1) - (char*)%s" % (par(t, pr, 13), par(t, pr, 13)), self.ty.size(l[2]))
        else:
            self.out("(char*)(&%s + 2) - (char*)&%s" % (par(t, pr, 13), par(t, pr, 13)), 2 * self.ty.size(l[2]))

    def copy(self, l, m):
        n = self.ty.size(l[2])
        a, b = self.objs[m[0]], self.objs[l[0]]
        data = a.mem[m[1]:m[1] + n]
        ptrs = {o - m[1]: v for o, v in a.ptr.items() if m[1] <= o < m[1] + n}
        for (uo, us) in l[5]:
            for i in range(us):
                b.mem[uo + i] = None
        b.mem[l[1]:l[1] + n] = data
        for o, v in ptrs.items():
            b.ptr[l[1] + o] = v

    def op_cp(self, p, q, form, r=None):
        """aggregate assignment"""
        t2, pr2, m = self.path(q)
        t, pr, l = self.path(p)
        if l[2] != m[2] or l[2][0] != "s":
            raise Bad
        if l[0] == m[0] and l[1] != m[1] and abs(l[1] - m[1]) < self.ty.size(l[2]):
            raise Bad
        if form == 1 and r:
            t3, pr3, l3 = self.path(r)
            if l3[2] != m[2] or l3[0] == l[0] or l3[0] == m[0]:
                raise Bad
            self.copy(l, m)
            self.copy(l3, m)
            self.code.append("%s = %s = %s;" % (t3, t, t2))
            return
        self.copy(l, m)
        self.code.append("%s = %s;" % (t, t2))

    def leaves(self, T, off=0, text="", acc=None):
        """Scalar leaves (text suffix, offset, type); unions through their first member."""
        acc = [] if acc is None else acc
        if T[0] == "a":
            es = self.ty.size(T[2])
            for i in range(T[1]):
                self.leaves(T[2], off + i * es, "%s[%d]" % (text, i), acc)
        elif T[0] == "s":
            s = self.u["structs"][T[1]]
            offs = self.ty.layout(T[1])[0]
            for (nm, M), o in list(zip(s["mem"], offs))[:1 if s["kind"] == "union" else None]:
                self.leaves(M, off + o, "%s.%s" % (text, nm), acc)
        else:
            acc.append((text, off, T))
        return acc

    def op_fn(self, sid, argp, dst, pre, post, delta, how):
        """By-value passing and returning: f(pre, S, post) changes its copy, returns it; caller's object stays."""
        T = ["s", sid]
        ta, pra, la = self.path(argp)
        if la[2] != T:
            raise Bad
        lv = [x for x in self.leaves(T) if x[2][0] == "i"]
        # all leaves read must be defined
        ints = []
        for (tx, off, LT) in lv[:12]:
            ints.append((tx, off, LT, self.get(la[0], la[1] + off, LT)))
        k = len(self.funcs)
        name = "r%d_%d" % (self.uid, k)
        pp = "".join("%s a%d," % (cexpr.CNAMES[t], i) for i, (t, v) in enumerate(pre))
        qq = "".join(",%s b%d" % (cexpr.CNAMES[t], i) for i, (t, v) in enumerate(post))
        body = "".join("out(a%d);" % i for i in range(len(pre))) + "".join("out(b%d);" % i for i in range(len(post)))
        body += "".join("out(s%s);" % x[0] for x in ints)
        mod = []
        for (tx, off, LT, v) in ints[:3]:
            body += "s%s=%s;" % (tx, cexpr.num(self.cfg, delta))
            mod.append((off, LT, self.cfg.conv(delta, LT[1])))
        S = self.ty.decl(T, "")
        ret = how % 4
        # ret: 0 result unused, 1 assigned to dst, 2 member of the result read in place, 3 void function
        rt = "void" if ret == 3 else S
        body += "" if ret == 3 else "return s;"
        if how & 8:             # passed by address, copied at once: only the result is a structure
            self.funcs.append("%s %s(%s%s *q%s){%s s;s=*q;%s}\n" % (rt, name, pp, S, qq, S, body))
            ta = "&" + par(ta, pra, 13)
        else:
            self.funcs.append("%s %s(%s%s s%s){%s}\n" % (rt, name, pp, S, qq, body))
        call = "%s(%s%s%s)" % (name if how & 4 == 0 else "(*&%s)" % name, "".join(cexpr.num(self.cfg, v) + "," for t, v in pre), ta, "".join("," + cexpr.num(self.cfg, v) for t, v in post))
        words = [self.cfg.conv(v, t) & self.mask for t, v in pre] + [self.cfg.conv(v, t) & self.mask for t, v in post] + [x[3] & self.mask for x in ints]
        if ret in (0, 3):
            self.code.append(call + ";")
            self.exp += words
        elif ret == 2:
            if not mod:
                raise Bad
            self.code.append("out(%s%s);" % (call, ints[0][0]))
            self.exp += words + [mod[0][2] & self.mask]
        else:
            td, prd, ld = self.path(dst)
            if ld[2] != T or (ld[0] == la[0] and ld[1] != la[1] and abs(ld[1] - la[1]) < self.ty.size(T)):
                raise Bad
            self.code.append("%s = %s;" % (td, call))
            self.exp += words
            if ld[:2] != la[:2]:
                self.copy(ld, la)
            for off, LT, v in mod:
                self.store((ld[0], ld[1] + off, LT, 0, 1, ()), v)

    def op_pf(self, p, how, vals):
        """Through a pointer parameter: void f(T *q) or f(T q[n]) writes elements."""
        t, pr, l = self.path(p)
        T = l[2]
        if T[0] != "a" or T[2][0] not in ("i", "a"):
            raise Bad
        E = T[2]
        k = len(self.funcs)
        name = "q%d_%d" % (self.uid, k)
        n = T[1]
        if E[0] == "i":
            d = [self.ty.decl(["p", E], "q"), self.ty.decl(["a", n, E], "q"), self.ty.decl(["a", None, E], "q")][how % 3]
            body = ""
            for i, v in enumerate(vals[:n]):
                j = (how + i) % n
                body += "q[%d]=%s;" % (j, cexpr.num(self.cfg, v)) if i % 2 else "*(q+%d)=%s;" % (j, cexpr.num(self.cfg, v))
                self.store((l[0], l[1] + j * self.ty.size(E), E, 0, 1, l[5]), self.cfg.conv(v, E[1]))
        else:
            if E[2][0] != "i":
                raise Bad
            d = [self.ty.decl(["p", E], "q"), self.ty.decl(["a", n, E], "q"), self.ty.decl(["a", None, E], "q")][how % 3]
            body = ""
            for i, v in enumerate(vals[:n]):
                j, m = (how + i) % n, (how * 3 + i) % E[1]
                body += "q[%d][%d]=%s;" % (j, m, cexpr.num(self.cfg, v))
                self.store((l[0], l[1] + j * self.ty.size(E) + m * self.ty.size(E[2]), E[2], 0, 1, l[5]), self.cfg.conv(v, E[2][1]))
            body += "q++;out((char*)q-(char*)(q-1));"
            self.exp.append(self.ty.size(E))
        self.funcs.append("void %s(%s){%s}\n" % (name, d, body))
        self.code.append("%s(%s);" % (name, t))

    def op_ca(self, p, a, b, form):
        """Call through a function pointer."""
        t, pr, l, v = self.rval(p)
        if l[2][0] != "fp" or v[0] != "fn":
            raise Bad
        j = l[2][1]
        if j == 0:
            w = lambda x: cexpr.num(self.cfg, self.cfg.conv(x, "int"))
            args = "%s, %s" % (w(a), w(b))
            x, y = self.cfg.conv(a, "int"), self.cfg.conv(b, "int")
            r = [x ^ y, (x & y) + 1 & self.mask, x][v[1] % 3]
            e = "%s(%s)" % (par(t, pr, 14) if form == 0 else "(*%s)" % par(t, pr, 13), args)
            self.out(e, r)
        elif j == 2:
            x = self.cfg.conv(a, "short")
            r = [x & 255, ~x & 255, 7][v[1] % 3]
            self.out("%s(%s)" % (par(t, pr, 14) if form == 0 else "(*%s)" % par(t, pr, 13), cexpr.num(self.cfg, x)), r)
        else:
            raise Bad

    def op_by(self, p, i):
        """One byte of an object through a char pointer."""
        t, pr, l = self.path(p)
        n = self.ty.size(l[2])
        if has_ptr(l[2], self.u["structs"]):
            raise Bad
        i %= n
        b = self.objs[l[0]].mem[l[1] + i]
        leaf = [x for x in self.leaves(l[2]) if x[1] <= i < x[1] + self.ty.size(x[2])]
        if b is None or not leaf:
            raise Bad
        self.out("((unsigned char*)&%s)[%d]" % (par(t, pr, 13), i), b)

    # -- final state of every object
    def dump(self):
        for k, ob in enumerate(self.objs):
            if ob.kind == "str":
                continue
            for (tx, off, T) in self.leaves(ob.T)[:60]:
                try:
                    v = self.get(k, off, T)
                except Bad:
                    continue
                t = ob.name + tx
                if T[0] in ("i", "e"):
                    self.out(t, v)
                elif T[0] == "f":
                    self.out("*(unsigned*)&%s" % t, v)
                else:
                    try:
                        self.outptr(t, 15, T, v)
                    except Bad:
                        pass


def fname(k, T):
    return ("fa%d" if T[1] == 0 else "fb%d") % (k % 3)


def iprec(t):
    return 11 if " " in t else 13 if t[0] == "-" else 15


def par(t, prec, need):
    return t if prec >= need else "(" + t + ")"


def support(cfg, uid_list):
    o = ["int fa0(int a,int b){return a^b;}\nint fa1(int a,int b){return (unsigned)(a&b)+1;}\nint fa2(int a,int b){return a;}\n"
         "unsigned char fb0(short a){return a;}\nunsigned char fb1(short a){return ~a;}\nunsigned char fb2(short a){return 7;}\n"
         "int G0=0,G1=1,G2=2,G3=3,G4=4,G5=5,G6=6,G7=7;\n"]
    return "".join(o)


IVARS = "int i0=0,i1=1,i2=2,i3=3,i4=4,i5=5,i6=6,i7=7;char c0=0,c1=1,c2=2,c3=3,c4=4,c5=5,c6=6,c7=7;unsigned short u0=0,u1=1,u2=2,u3=3,u4=4,u5=5,u6=6,u7=7;"


# ------------------------------------------------------------------ initializer text

def init_text(sim, T, v, style, top=True, rng_bits=None, unsized=False):
    """Text of an initializer. style: bit source deciding elisions. v: value tree."""
    cfg = sim.cfg
    b = rng_bits
    if T[0] == "i":
        if b() % 7 == 0 and 32 <= v < 127 and chr(v) not in "'\\\"?":
            return "'%s'" % chr(v)
        s = cexpr.num(cfg, v)
        return "{%s}" % s if top and b() % 9 == 0 else s
    if T[0] == "e":
        return ["A%d", "B%d"][v] % sim.uid if v < 2 else str(v)
    if T[0] == "f":
        return "%rf" % v if v != int(v) or b() % 2 else ("%d" % v)
    if T[0] == "fp":
        return "0" if v[0] == "n" else ("&" if b() % 3 == 0 else "") + fname(v[1], T)
    if T[0] == "p":
        if v[0] == "n":
            return ["0", "(void*)0"][b() % 2]
        if v[0] == "str":
            return cstr(v[1])
        return const_addr(sim, v, T, b)
    if T[0] == "a":
        E = T[2]
        if E[0] == "i" and cfg.size(E[1]) == 1 and b() % 3 == 0 and v and all(0 <= x & 255 < 128 for x in v):
            # as a string: the values must be the string's bytes; a terminating 0 may be cut off by a full array
            x = [y & 255 for y in v]
            if unsized and x[-1]:
                pass
            elif len(x) == T[1]:
                s = x if x[-1] else x[:-1]
                return ("{%s}" if b() % 4 == 0 else "%s") % cstr(s)
            else:
                return cstr(x)
        if E[0] == "i" and E[1] in WIDE[cfg.isz] and b() % 3 == 0 and v and len(v) < 60:
            # likewise as a wide string
            x = [y & 0xffff for y in v]
            s = wstr(x[:-1] if not x[-1] and not (len(x) < T[1] and b() % 2) else x, b)
            if s and (x[-1] == 0 or not unsized):
                return ("{%s}" if b() % 4 == 0 else "%s") % s
        parts = []
        for i, x in enumerate(v):
            s = init_text(sim, E, x, style, False, b)
            parts.append(elide(sim, s, E, x, i == len(v) - 1, b))
        return "{%s%s}" % (",".join(parts), "," if parts and b() % 6 == 0 else "")
    s = sim.u["structs"][T[1]]
    parts = []
    mem = s["mem"][:1] if s["kind"] == "union" else s["mem"]
    for i, ((nm, M), x) in enumerate(zip(mem, v)):
        tx = init_text(sim, M, x, style, False, b)
        parts.append(elide(sim, tx, M, x, i == len(v) - 1 , b))
    return "{%s%s}" % (",".join(parts), "," if parts and b() % 6 == 0 else "")


def elide(sim, text, T, v, last, b):
    """Drops the braces of a sub-aggregate when that keeps the meaning."""
    if T[0] not in ("a", "s") or text[:1] != "{" or text[1:2] == "{" or b() % 3:
        return text     # (a sub-aggregate's text that starts with a brace has to keep its own)
    if not full(sim, T, v):
        # an incomplete sub-aggregate without braces would swallow what follows; allowed as the last one, too, but
        # then everything after it is zero anyway
        if not last or not v:
            return text
    return text[1:-1].rstrip(",")


def full(sim, T, v):
    if T[0] == "a":
        return len(v) == T[1] and all(full(sim, T[2], x) for x in v[-1:]) and len(v) > 0
    if T[0] == "s":
        s = sim.u["structs"][T[1]]
        n = 1 if s["kind"] == "union" else len(s["mem"])
        return len(v) == n and all(full(sim, M, x) for (nm, M), x in list(zip(s["mem"], v))[-1:])
    return True


WIDE = {4: ("short", "ushort"), 2: ("short", "ushort", "int", "uint")}      # 16-bit wchar_t is the default


def wstr(x, b):
    """Wide string literal(s) with these 16-bit codes."""
    o, hx = 'L"', False
    for c in x:
        if b() % 5 == 0 or hx and 32 <= c < 127 and chr(c) in "0123456789abcdefABCDEF":
            o += '"%sL"' % [" ", "", "\n"][b() % 3]
            hx = False
        if 32 <= c < 127 and b() % 5:
            o += "\\" + chr(c) if chr(c) in '"\\?' else chr(c)
            hx = False
        elif c < 256 and b() % 2:
            o += "\\%03o" % c
            hx = False
        else:
            o += ("\\x%x" if b() % 2 else "\\x%04X") % c
            hx = True
    return o + '"'


def cstr(x):
    o, prev = "", False
    for c in x:
        ch = chr(c)
        if c < 32 or c > 126:
            e = {10: "\\n", 9: "\\t", 7: "\\a", 8: "\\b", 13: "\\r", 11: "\\v", 12: "\\f"}.get(c, "\\%03o" % c)
            o += e
        elif ch in "\"\\":
            o += "\\" + ch
        elif ch == "?":
            o += "\\?"
        else:
            o += ch
    return '"%s"' % o


def bits(seed):
    """Deterministic source of small numbers."""
    x = [seed * 2654435761 % (1 << 32) or 1]

    def b():
        x[0] ^= (x[0] << 13) & 0xffffffff
        x[0] ^= x[0] >> 17
        x[0] ^= (x[0] << 5) & 0xffffffff
        return x[0] >> 3
    return b


def const_addr(sim, v, T, b):
    t, pr, lv = sim.path(v[1])
    if lv[2] == T[1]:
        return "&" + par(t, pr, 13)
    raise Bad


# ------------------------------------------------------------------ units and programs

def run_unit(cfg, unit, uid):
    """-> (text, call, expected words). Raises Bad."""
    sim = Sim(cfg, unit, uid)
    for op in unit["ops"]:
        sim.step(op)
    sim.dump()
    return emit_unit(cfg, sim, unit, uid)


def emit_unit(cfg, sim, unit, uid):
    import re
    b = bits(unit.get("salt", 0) + 17)
    ini = Sim(cfg, {**unit, "ops": []}, uid)    # initializers name the objects in their initial state
    o = ["enum E%d_0{A%d,B%d};\n" % (uid, uid, uid), sim.ty.struct_defs(unit.get("salt", 0))]
    loc, params, args = [], [], []
    for k, x in enumerate(unit["objs"]):
        T, name, kind = x["T"], sim.objs[k].name, x["k"]
        T2 = ["a", None, T[2]] if x.get("unsized") else T
        q = ["", "const ", "volatile "][x.get("q", 0)]
        if kind in ("gu", "lu"):
            (o if kind == "gu" else loc).append(sim.ty.decl(T, name, b() % 5) + ";\n")
            continue
        if kind == "prm":
            o.append("%s = %s;\n" % (sim.ty.decl(T, "a%d_%d" % (uid, k), b() % 5), init_text(ini, T, x["init"], 0, True, b)))
            params.append(sim.ty.decl(T, name, b() % 5))
            args.append("a%d_%d" % (uid, k))
            continue
        d = sim.ty.decl(T2, name, b() % 5, {"sg": "static ", "sl": "static "}.get(kind, ""))
        d = "%s = %s;\n" % (d, init_text(ini, T, x["init"], 0, True, b, bool(x.get("unsized"))))
        (o if kind in ("g", "sg") else loc).append(d)
    code = "\n".join(sim.code)
    iv = []
    for m in sorted(set(re.findall(r"\b[icu][0-7]\b", code))):
        iv.append("%s %s=%s;" % ({"i": "int", "c": "char", "u": "unsigned short"}[m[0]], m, m[1]))
    o += sim.funcs
    o.append("void unit%d(%s)\n{\n%s\n%s%s\n}\n" % (uid, ",".join(params) or "void", "".join(iv), "".join(loc), code))
    return "".join(o), "unit%d(%s);" % (uid, ",".join(args)), sim.exp


def program(cfg, units):
    src, calls, exp = ["void out(unsigned);\n", support(cfg, None)], [], []
    for k, u in enumerate(units):
        t, c, x = run_unit(cfg, u, k)
        src.append(t)
        calls.append("out(238);" + c)
        exp.append([238] + x)
    src.append("int main(void)\n{\n" + "\n".join(calls) + "\nreturn 0;\n}\n")
    return "".join(src), exp


class MGen:
    """weights: relative frequency of each operation."""

    def __init__(self, rng, cfg, weights, nstruct=3, nobj=6, nops=22, maxmem=5, pack=True, ptrs=True, kinds=None, depth=3):
        self.rng, self.cfg, self.w = rng, cfg, weights
        self.nstruct, self.nobj, self.nops, self.maxmem, self.pack, self.ptrs, self.depth = nstruct, nobj, nops, maxmem, pack, ptrs, depth
        self.kinds = kinds or ["g", "g", "sg", "l", "sl", "gu", "lu", "prm"]

    def unit(self):
        rng, cfg = self.rng, self.cfg
        tg = TGen(rng, cfg, pack=self.pack, ptrs=self.ptrs)
        tg.make_structs(rng.randrange(0, self.nstruct + 1), self.maxmem)
        ty = Types(cfg, tg.structs, 0)
        self.u = {"structs": tg.structs, "objs": [], "ops": [], "salt": rng.randrange(10000)}
        total = 0
        for _ in range(rng.randrange(2, self.nobj + 1)):
            for _ in range(8):
                T = tg.type(self.depth)
                if tg.structs and rng.random() < 0.25:
                    T = ["s", rng.randrange(len(tg.structs))]
                if ty.size(T) <= 160 and total + ty.size(T) < 600:
                    break
            else:
                continue
            total += ty.size(T)
            self.add_obj(T, rng.choice(self.kinds), ty)
        if not self.u["objs"]:
            self.add_obj(["i", "int"], "g", ty)
        # a second object of a struct type makes copies possible
        for k in range(len(tg.structs)):
            if rng.random() < 0.4 and ty.size(["s", k]) < 200:
                self.add_obj(["s", k], rng.choice(["g", "lu", "gu", "l"]), ty)
        # pointers to follow
        if self.ptrs:
            for _ in range(rng.randrange(0, 4)):
                T = ["p", tg.pointee()]
                self.add_obj(T, rng.choice(["g", "lu", "sl", "l"]), ty)
        self.sim = Sim(cfg, self.u, 0)
        names = [n for n, k in self.w.items() for _ in range(k)]
        tries = 0
        while len(self.u["ops"]) < self.nops and names and tries < self.nops * 12:
            tries += 1
            op = self.propose(rng.choice(names))
            if op is None:
                continue
            save = [(list(o.mem), dict(o.ptr)) for o in self.sim.objs]
            lens = (len(self.sim.code), len(self.sim.exp), len(self.sim.funcs))
            try:
                self.sim.step(op)
                self.u["ops"].append(op)
            except (Bad, IndexError, KeyError):
                for o, (m, q) in zip(self.sim.objs, save):
                    o.mem, o.ptr = m, q
                del self.sim.code[lens[0]:], self.sim.exp[lens[1]:], self.sim.funcs[lens[2]:]
            if sum(len(x) for x in self.sim.code) > 2500 and False:
                break
        return self.u

    def add_obj(self, T, kind, ty):
        rng = self.rng
        if kind == "prm" and (T[0] == "a"):
            kind = "g"
        o = {"T": T, "k": kind}
        k = len(self.u["objs"])
        if kind not in ("gu", "lu"):
            o["init"] = self.value(T, k, kind)
            if T[0] == "a" and rng.random() < 0.4 and len(o["init"]) == T[1]:
                o["unsized"] = 1
        self.u["objs"].append(o)

    def value(self, T, k, kind, depth=0):
        rng, cfg = self.rng, self.cfg
        if T[0] == "i":
            if cfg.size(T[1]) == 1 and rng.random() < 0.6:
                return rng.choice([65, 66, 67, 97, 98, 48, 63, 92, 34, 10, 39, 32])
            return cexpr.edge_value(rng, cfg, T[1])
        if T[0] == "e":
            return rng.randrange(3)
        if T[0] == "f":
            return rng.choice(FLOATS)
        if T[0] == "fp":
            return ["fn", rng.randrange(3)] if rng.random() < 0.75 else ["n"]
        if T[0] == "p":
            if T[1] == ["i", "char"] and rng.random() < 0.4:
                return ["str", [rng.choice([65, 98, 33, 10, 37, 92, 34, 48]) for _ in range(rng.randrange(0, 6))]]
            for _ in range(6):
                p = self.cpath(T[1], k)
                if p:
                    return ["o", p]
            return ["n"]
        if T[0] == "a":
            n = T[1] if rng.random() < 0.6 else rng.randrange(1, T[1] + 1)
            return [self.value(T[2], k, kind, depth + 1) for _ in range(n)]
        s = self.u["structs"][T[1]]
        n = 1 if s["kind"] == "union" else len(s["mem"]) if rng.random() < 0.7 else rng.randrange(1, len(s["mem"]) + 1)
        return [self.value(M, k, kind, depth + 1) for _, M in s["mem"][:n]]

    def cpath(self, want, k):
        """Constant address path to a subobject of type want in a static object before k."""
        rng = self.rng
        c = [i for i, o in enumerate(self.u["objs"][:k]) if o["k"] in ("g", "sg", "gu")]
        if not c:
            return None
        i = rng.choice(c)
        T, p = self.u["objs"][i]["T"], [["obj", i]]
        for _ in range(5):
            if T == want and (T[0] not in ("a", "s") or rng.random() < 0.7):
                return p
            if T[0] == "a":
                p.append(["x", 0, rng.randrange(T[1]), 0])
                T = T[2]
            elif T[0] == "s":
                m = rng.randrange(len(self.u["structs"][T[1]]["mem"]))
                if self.u["structs"][T[1]]["kind"] == "union" or len(p) > 1:
                    return None     # smlrc folds address + one member offset + indexes only, and says so otherwise
                p.append(["m", m, 0])
                T = self.u["structs"][T[1]]["mem"][m][1]
            else:
                return None
        return p if T == want else None

    def gpath(self, want):
        rng = self.rng
        for _ in range(12):
            k = rng.randrange(len(self.u["objs"]))
            p = [["obj", k]]
            ok = True
            for _ in range(7):
                try:
                    st = self.sim.path(p)[2]
                except (Bad, IndexError, KeyError):
                    ok = False
                    break
                T = st[2]
                if want(T) and rng.random() < 0.6:
                    break
                if rng.random() < 0.05:
                    p.append(["ad"])
                if T[0] == "a":
                    p.append(["d", rng.randrange(2)] if rng.random() < 0.15 else ["x", rng.choice([0, 0, 0, 1, 1, 2]), rng.randrange(T[1]), rng.randrange(6)])
                elif T[0] == "s":
                    p.append(["m", rng.randrange(len(self.u["structs"][T[1]]["mem"])), int(rng.random() < 0.8)])
                elif T[0] == "p":
                    try:
                        v = self.sim.get(st[0], st[1], T)
                    except Bad:
                        break
                    if v[0] != "o" or v[3] >= v[4]:
                        break
                    if v[3] <= 0 < v[4] and rng.random() < 0.5:
                        p.append(["d", rng.randrange(2)])
                    else:
                        p.append(["x", rng.choice([0, 0, 1, 2]), rng.randrange(v[3], v[4]), rng.randrange(6)])
                else:
                    break
            if not ok:
                continue
            try:
                if want(self.sim.path(p)[2][2]):
                    return p
            except (Bad, IndexError, KeyError):
                pass
        return None

    def propose(self, n):
        rng = self.rng
        g = self.gpath
        scal = lambda T: T[0] in ("i", "e", "f")
        isi = lambda T: T[0] == "i"
        isp = lambda T: T[0] == "p"
        anyt = lambda T: True
        v = cexpr.edge_value(rng, self.cfg, "int")
        if n == "rd":
            p = g(lambda T: T[0] in ("i", "e", "f", "p", "fp"))
            return p and ["rd", p]
        if n == "wr":
            p = g(scal)
            return p and ["wr", p, v]
        if n == "as":
            p, q = g(lambda T: T[0] not in ("a", "s")), None
            if p:
                T = self.sim.path(p)[2][2]
                q = g(lambda Q: Q == T if T[0] in ("p", "fp") else Q[0] in ("i", "e", "f"))
            return q and ["as", p, q]
        if n == "oa":
            p = g(isi)
            op = rng.choice(["+", "-", "&", "|", "^", "*", "/", "%", "<<", ">>"])
            return p and ["oa", op, p, rng.choice([1, 2, 3, 5, 7, 8, 15]) if op in ("/", "%", "<<", ">>") else rng.choice([v, 1, 2, 10, -1, 100])]
        if n == "pp":
            p = g(isp if rng.random() < 0.6 else isi)
            return p and ["pp", p, rng.choice(["++", "--"]), rng.randrange(2), rng.randrange(2)]
        if n == "pa":
            p = g(lambda T: T[0] == "p" or T[0] == "fp" and rng.random() < 0.3)
            if not p:
                return None
            T = self.sim.path(p)[2][2]
            if T[0] == "fp":
                return ["pa", p, ["fn", rng.randrange(3)], rng.randrange(2)]
            if rng.random() < 0.1:
                return ["pa", p, ["n"], rng.randrange(2)]
            q = g(lambda Q: Q == T[1] or Q[0] == "a" and Q[2] == T[1])
            return q and ["pa", p, ["o", q], rng.randrange(128)]
        if n == "pq":
            p = g(isp)
            if not p:
                return None
            T = self.sim.path(p)[2][2]
            q = g(lambda Q: Q == T)
            return q and ["pq", p, q, rng.choice(["-", "-", "<", "<=", ">", ">=", "==", "!="])]
        if n == "pz":
            p = g(lambda T: T[0] in ("p", "fp"))
            return p and ["pz", p, rng.randrange(5)]
        if n == "of":
            p, q = g(anyt), g(anyt)
            return p and q and ["of", p, q]
        if n == "sz":
            p = g(anyt)
            return p and ["sz", p, rng.randrange(2)]
        if n == "st":
            p = g(anyt)
            return p and ["st", p, rng.randrange(2)]
        if n == "cp":
            p = g(lambda T: T[0] == "s")
            if not p:
                return None
            T = self.sim.path(p)[2][2]
            q, r = g(lambda Q: Q == T), g(lambda Q: Q == T)
            return q and ["cp", p, q, rng.randrange(2), r]
        if n == "fn":
            p = g(lambda T: T[0] == "s")
            if not p:
                return None
            T = self.sim.path(p)[2][2]
            d = g(lambda Q: Q == T)
            mk = lambda: [[t, cexpr.edge_value(rng, self.cfg, t)] for t in [rng.choice(self.cfg.types) for _ in range(rng.randrange(3))]]
            return d and ["fn", T[1], p, d, mk(), mk(), rng.choice([1, 77, -3, 1000]), rng.randrange(16)]
        if n == "pf":
            p = g(lambda T: T[0] == "a" and (T[2][0] == "i" or T[2][0] == "a" and T[2][2][0] == "i"))
            return p and ["pf", p, rng.randrange(30), [rng.choice([1, 2, 33, 44, -5, 100]) for _ in range(3)]]
        if n == "ca":
            p = g(lambda T: T[0] == "fp")
            return p and ["ca", p, v, rng.randrange(100), rng.randrange(2)]
        if n == "by":
            p = g(anyt)
            return p and ["by", p, rng.randrange(64)]
        raise KeyError(n)
