"""C types as data: generator, layout (the oracle) and declarator rendering.

["i", t] integer type t of cexpr; ["f"] float; ["e", k] enum; ["p", T]; ["v"] void (behind pointers only); ["a", n, T];
["s", k] struct or union number k of the unit; ["fp", j] pointer to function of signature j.
"""
from . import cexpr

SIGS = [("int", ["int", "int"]), ("void", []), ("uchar", ["short"])]


class Types:
    """The aggregates of one unit and their layout."""

    def __init__(self, cfg, structs, uid):
        self.cfg, self.structs, self.uid = cfg, structs, uid
        self._lay = {}

    def size(self, T):
        k = T[0]
        if k == "i":
            return self.cfg.size(T[1])
        if k == "f":
            return 4
        if k in ("p", "fp", "e"):
            return self.cfg.isz
        if k == "a":
            return T[1] * self.size(T[2])
        if k == "s":
            return self.layout(T[1])[1]
        raise KeyError(k)

    def align(self, T):
        k = T[0]
        if k == "a":
            return self.align(T[2])
        if k == "s":
            return self.layout(T[1])[2]
        return self.size(T)

    def layout(self, k):
        """-> (offsets, size, align)"""
        if k not in self._lay:
            s = self.structs[k]
            pack = s.get("pack") or 64
            off, offs, al, mx = 0, [], 1, 0
            for _, T in s["mem"]:
                a = min(self.align(T), pack)
                al = max(al, a)
                if s["kind"] == "union":
                    offs.append(0)
                    mx = max(mx, self.size(T))
                else:
                    off = -(-off // a) * a
                    offs.append(off)
                    off += self.size(T)
                    mx = off
            self._lay[k] = (offs, -(-mx // al) * al, al)
        return self._lay[k]

    def tag(self, k):
        return "%s%d_%d" % ("U" if self.structs[k]["kind"] == "union" else "S", self.uid, k)

    # -- rendering
    def base(self, T):
        while T[0] in ("p", "a"):
            T = T[2] if T[0] == "a" else T[1]
        return T

    def decl(self, T, name, salt=0, qual=""):
        """Text of a declaration of name with type T (without ';')."""
        suffix_first = name
        cur, last = name, None
        while True:
            k = T[0]
            if k == "p":
                cur, last = "*" + cur, "p"
                T = T[1]
            elif k == "a":
                if last == "p":
                    cur = "(" + cur + ")"
                cur, last = "%s[%s]" % (cur, "" if T[1] is None else T[1]), "a"
                T = T[2]
            elif k == "fp":
                rt, ps = SIGS[T[1]]
                cur = "(*" + cur + ")"
                r = "void" if rt == "void" else cexpr.CNAMES[rt]
                return "%s%s %s(%s)" % (qual, r, cur, ", ".join(cexpr.CNAMES[x] for x in ps) or "void")
            else:
                break
        if k == "i":
            b = cexpr.cname(T[1], salt)
        elif k == "f":
            b = "float"
        elif k == "v":
            b = "void"
        elif k == "e":
            b = "enum E%d_%d" % (self.uid, T[1])
        else:
            b = "%s %s" % (self.structs[T[1]]["kind"], self.tag(T[1]))
        return qual + b + (" " + cur if cur else "")

    def struct_defs(self, salt=0):
        o = []
        for k, s in enumerate(self.structs):
            body = "".join(self.decl(T, n, salt + i) + ";" for i, (n, T) in enumerate(s["mem"]))
            d = "%s %s{%s};" % (s["kind"], self.tag(k), body)
            p = s.get("pack")
            if p:
                form = s.get("pform", 0)
                if form == 0:
                    d = "\n#pragma pack(push,%d)\n%s\n#pragma pack(pop)\n" % (p, d)
                elif form == 1:
                    d = "\n#pragma pack(%d)\n%s\n#pragma pack()\n" % (p, d)
                else:
                    d = "\n#pragma pack(push)\n#pragma pack(%d)\n%s\n#pragma pack(pop)\n" % (p, d)
            o.append(d + "\n")
        return "".join(o)


class TGen:
    def __init__(self, rng, cfg, floats=True, ptrs=True, pack=True, unaligned_ok=True):
        self.rng, self.cfg = rng, cfg
        self.floats, self.ptrs, self.pack = floats and cfg.has_long, ptrs, pack
        self.structs = []

    def scalar(self, noptr=False):
        rng = self.rng
        r = rng.random()
        if self.floats and r < 0.08:
            return ["f"]
        if r < 0.12:
            return ["e", 0]
        if self.ptrs and not noptr:
            if r < 0.2:
                return ["fp", rng.randrange(2) * 2]
            if r < 0.4:
                return ["p", self.pointee()]
        return ["i", rng.choice(self.cfg.types)]

    def pointee(self):
        rng = self.rng
        r = rng.random()
        if self.structs and r < 0.4:
            return ["s", rng.randrange(len(self.structs))]
        if r < 0.5:
            return ["p", ["i", rng.choice(self.cfg.types)]]
        if r < 0.58:
            return ["a", rng.choice([2, 3, 4]), ["i", rng.choice(self.cfg.types)]]
        return ["i", rng.choice(self.cfg.types)]

    def type(self, depth, noptr=False):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < 0.45:
            return self.scalar(noptr)
        if r < 0.72:
            return ["a", rng.choice([1, 2, 3, 3, 4, 5, 7]), self.type(depth - 1, noptr)]
        ok = [k for k, s in enumerate(self.structs) if not noptr or not s["ptr"]]
        if ok:
            return ["s", rng.choice(ok)]
        return self.scalar(noptr)

    def make_structs(self, n, maxmem=5, own=None):
        rng = self.rng
        for k in range(n):
            union = rng.random() < 0.22
            mem = []
            for m in range(rng.randrange(1, maxmem + 1)):
                nm = "m%d" % m
                if rng.random() < 0.2:
                    T = ["a", rng.choice([1, 2, 3, 5, 6, 7, 9, 13, 16, 17, 31, 33]), ["i", rng.choice(["char", "uchar", "short"])]]
                elif not union and self.ptrs and rng.random() < 0.1:
                    T = ["p", ["s", k]]
                else:
                    T = self.type(2, noptr=union)
                mem.append([nm, T])
            s = {"kind": "union" if union else "struct", "mem": mem, "ptr": any(has_ptr(T, self.structs) for _, T in mem)}
            if self.pack and rng.random() < 0.2:
                s["pack"] = rng.choice([1, 2, 4] if self.cfg.isz == 4 else [1, 2])
                s["pform"] = rng.randrange(3)
            self.structs.append(s)
        return self.structs


def has_ptr(T, structs):
    k = T[0]
    if k in ("p", "fp"):
        return True
    if k == "a":
        return has_ptr(T[2], structs)
    if k == "s":
        return T[1] < len(structs) and structs[T[1]]["ptr"] or T[1] >= len(structs)
    return False


def has_union(T, structs):
    if T[0] == "a":
        return has_union(T[2], structs)
    if T[0] == "s":
        return structs[T[1]]["kind"] == "union" or any(has_union(m, structs) for _, m in structs[T[1]]["mem"])
    return False
