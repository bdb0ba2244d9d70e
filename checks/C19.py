"""C19: calls between code of this compiler and code of gcc."""
import hashlib, os
from vlib import core, targets
from vlib.core import run, Infra

ID = "C19"
NEEDS = ("smlrc", "smlrcmips", "smlrpp", "smlrl", "smlrcc")
QUICK = (1500, 50)
THOROUGH = (60000, 700)
TECHNIQUE = "property-based testing: generated programs whose functions are divided between this compiler and gcc, compared with the same program compiled by gcc alone; crossing calls go through thunks that ruin registers and check the stack"
LEVEL_NOTE = "Random signatures of up to 9 parameters (all integer types, pointers, function pointers, floats, naturally aligned and packed structures and unions of 1 to 60 bytes, variable arguments of int, pointer and structure type), all such results, nested and indirect calls both ways, callbacks; x86 32-bit (linked by this linker or GNU ld) and MIPS o32 under qemu."
RULE = ("Each evaluation is one program of two files, one compiled by this compiler and one by gcc, linked together and run; the words it prints (every byte of every argument received and of every result) and its exit must be those of the program compiled by gcc alone. Every call that crosses goes through a thunk "
        "that, after the call, compares stack and frame pointers with their values before it and, before and after the call, fills every register that the convention does not preserve with junk. Non-trivial: at least 3 crossing calls executed and 10 words printed; distinct by text.")
ASSUMPTIONS = ["registers other than the stack and frame pointers are not preserved by x86 functions of this compiler (doc/smlrc.md); the thunks restore them for gcc", "floating results come back in eax (doc/smlrc.md): gcc's side declares them as unsigned", "gcc is told that the callee does not pop the hidden pointer to a structure result (as documented, the caller cleans up)",
               "a function that returns char or short has to extend it (doc/smlrc.md): gcc's side returns an extended int"]

INTS = {"char": (1, 1), "signed char": (1, 1), "unsigned char": (1, 0), "short": (2, 1), "unsigned short": (2, 0), "int": (4, 1), "unsigned": (4, 0), "long": (4, 1), "unsigned long": (4, 0)}
INTN = list(INTS)


# ------------------------------------------------------------ generation
# types: ["i", name] | ["p"] (int*) | ["c"] (char*) | ["f"] | ["s", k] | ["q", k] (pointer to structure) | ["fp"] (int (*)(int, int))

class Gen:
    def __init__(self, rng, arch):
        self.rng, self.arch = rng, arch

    def scalar(self, ptr=True):
        r = self.rng.random()
        if r < 0.62 or (not ptr and r < 0.85):
            return ["i", self.rng.choice(INTN)]
        if r < 0.72 and ptr:
            return ["p"]
        if r < 0.8 and ptr:
            return ["c"]
        if r < 0.85 and ptr:
            return ["fp"]
        return ["f"] if self.arch == "x86" else ["i", "int"]

    def type(self, sp=0.3):
        r = self.rng.random()
        if r < sp and self.structs:
            return ["s", self.rng.randrange(len(self.structs))]
        if r < sp + 0.06 and self.structs:
            return ["q", self.rng.randrange(len(self.structs))]
        return self.scalar()

    def struct(self, k):
        rng = self.rng
        mem = []
        for i in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
            if k and rng.random() < 0.15:
                t = ["s", rng.randrange(k)]
            else:
                t = self.scalar()
                if t[0] == "fp":
                    t = ["p"]
            n = rng.choice([1, 2, 3, 5, 7, 12]) if t[0] == "i" and rng.random() < 0.3 else 0
            mem.append([t, n])
        # some packing needs single bytes only
        if rng.random() < 0.2:
            mem = [[["i", rng.choice(["char", "unsigned char"])], rng.choice([0, 1, 2, 3, 5, 7, 9, 13])] for _ in range(rng.choice([1, 1, 2]))]
        return {"pack": rng.choice([0, 0, 0, 1, 2]) if self.arch == "x86" else 0, "u": rng.random() < 0.12, "mem": mem}

    def program(self):
        rng = self.rng
        self.structs = []
        for k in range(rng.choice([0, 1, 2, 3, 4])):
            self.structs.append(self.struct(k))
        n = rng.choice([2, 3, 4, 5, 6])
        self.funcs = []
        for j in range(n):
            ps = [self.type() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 9]))]
            va = []
            if rng.random() < 0.3:
                if not ps:
                    ps = [["i", "int"]]
                # the last named parameter of a type that promotion does not change
                if ps[-1][0] in ("f", "s") or ps[-1][0] == "i" and INTS[ps[-1][1]][0] < 4:
                    ps[-1] = ["i", "int"]
                va = [rng.choice([["i", "int"], ["i", "unsigned"], ["i", "long"], ["p"], ["c"], self.type(0.6)]) for _ in range(rng.choice([1, 2, 3, 5]))]
                va = [t if t[0] not in ("f", "fp") and not (t[0] == "i" and INTS[t[1]][0] < 4) else ["i", "int"] for t in va]
            ret = ["v"] if rng.random() < 0.1 else self.type(0.35)
            self.funcs.append({"side": rng.choice("SG"), "ret": ret, "ps": ps, "va": va})
        if len({f["side"] for f in self.funcs}) == 1:
            self.funcs[-1]["side"] = "S" if self.funcs[0]["side"] == "G" else "G"
        for j in range(n):
            f = self.funcs[j]
            f["body"] = self.body(j)
            f["rv"] = None if f["ret"] == ["v"] else self.expr(f["ret"], j, 2)
        return {"arch": self.arch, "structs": self.structs, "funcs": self.funcs, "mside": rng.choice("SG"), "main": self.body(-1), "link": rng.choice(["smlrl", "ld"]) if self.arch == "x86" else "ld",
                "leaf": rng.choice(["SG", "GS"]), "uchar": rng.random() < 0.3, "gopt": rng.choice(["-O0", "-O1", "-O2"])}

    def body(self, j):
        rng = self.rng
        out = []
        later = list(range(j + 1, len(self.funcs)))
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if later else 0):
            k = rng.choice(later)
            out.append([rng.choice(["call", "call", "call", "ind", "two"]), k, self.args(k, j, 2)])
        if j == -1 and not out:
            out.append(["call", 0, self.args(0, -1, 2)])
        return out

    def args(self, k, j, d):
        f = self.funcs[k]
        ts = f["ps"] + f["va"]
        while True:
            a, calls = [], False          # the order in which arguments are evaluated is not specified: one call only
            for i in self.rng.sample(range(len(ts)), len(ts)):
                e = self.expr(ts[i], j, 0 if calls else d)
                calls = calls or has_call(e)
                a.append((i, e))
            a = [e for _, e in sorted(a, key=lambda x: x[0])]
            if d == 0 or self.cost(["call", k, a]) < 75:
                return a
            d -= 1

    def cost(self, e):
        """Roughly how much of the compiler's expression table it takes."""
        if e[0] == "call":
            f = self.funcs[e[1]]
            return 4 + sum(self.cost(x) + (5 if t[0] == "s" else 1) for t, x in zip(f["ps"] + f["va"], e[2]))
        if e[0] == "+":
            return 5 + self.cost(e[1]) + self.cost(e[2])
        return 4 if e[0] == "k" else 2

    def expr(self, t, j, d):
        """An expression of type t in function j. ["k", v] | ["P", i] | ["call", k, args] | ["+", a, b] | ["fld", i, path]"""
        rng = self.rng
        ps = self.funcs[j]["ps"] if j >= 0 else []
        own = [i for i, p in enumerate(ps) if p == t]
        r = rng.random()
        if own and r < 0.4:
            return ["P", rng.choice(own)]
        if d > 0 and r < 0.6:
            c = [k for k in range(j + 1, len(self.funcs)) if self.funcs[k]["ret"] == t]
            if c:
                k = rng.choice(c)
                return ["call", k, self.args(k, j, d - 1)]
        if t[0] == "i" and d > 0 and r < 0.75:
            a = self.expr(t, j, d - 1)
            return ["+", a, self.expr(["i", rng.choice(INTN)], j, 0 if has_call(a) else d - 1)]
        if t[0] == "s":
            return ["k", rng.randrange(3)]
        if t[0] == "q":
            return ["k", rng.randrange(3)]
        if t[0] in ("p", "c"):
            return ["k", rng.randrange(-1, 8)]
        if t[0] == "fp":
            return ["k", rng.randrange(4)]
        if t[0] == "f":
            return ["k", rng.choice([0, 1, -1, 3, -12345, 1 << 20, 77, 16777215]) ]
        sz, sg = INTS[t[1]]
        v = rng.choice([0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(8)])
        return ["k", v]


def has_call(e):
    return e[0] == "call" or e[0] == "+" and (has_call(e[1]) or has_call(e[2]))


def gen(rng, idx, tier):
    return Gen(rng, "mips" if idx % 4 == 3 else "x86").program()


# ------------------------------------------------------------ rendering

class Render:
    """mode: "S" this compiler's file, "G" gcc's file; ref: both by gcc."""

    def __init__(self, p, mode, ref):
        self.p, self.mode, self.ref = p, mode, ref

    def ct(self, t, name=""):
        k = t[0]
        n = " " + name if name else ""
        if k == "v":
            return "void" + n
        if k == "i":
            return t[1] + n
        if k == "p":
            return "int*" + n
        if k == "c":
            return "char*" + n
        if k == "f":
            return "float" + n
        if k == "s":
            return "%s S%d" % ("union" if self.p["structs"][t[1]]["u"] else "struct", t[1]) + n
        if k == "q":
            return "%s S%d*" % ("union" if self.p["structs"][t[1]]["u"] else "struct", t[1]) + n
        return "int (*%s)(int, int)" % name

    def fret(self, f):
        """How this file declares the result."""
        r = f["ret"]
        if r[0] == "fp":
            return ["c"]        # as a pointer, converted
        if self.mode == "G" and not self.ref:
            if r[0] == "f":
                return ["i", "unsigned"]
            if r[0] == "i" and INTS[r[1]][0] < 4 and f["side"] == "G":
                return ["i", "int"]
        return r

    def sig(self, k, name):
        f = self.p["funcs"][k]
        ps = ", ".join(self.ct(t, "a%d" % i) for i, t in enumerate(f["ps"]))
        if f["va"]:
            ps += ", ..."
        cp = ""
        if self.mode == "G" and not self.ref and f["ret"][0] == "s" and self.p["arch"] == "x86":
            cp = "__attribute__((callee_pop_aggregate_return(0))) "
        return "%s%s %s(%s)" % (cp, self.ct(self.fret(f)), name, ps or "void")

    def cname(self, k):
        """What a call in this file names."""
        f = self.p["funcs"][k]
        return ("f%d" if self.ref or f["side"] == self.mode else "x_f%d") % k

    def const(self, t, v):
        k = t[0]
        if k == "i":
            sz, sg = INTS[t[1]]
            v &= (1 << 8 * sz) - 1
            if self.p["uchar"] and t[1] == "char":
                sg = 0
            if sg and v >> (8 * sz - 1):
                v -= 1 << 8 * sz
            return "(%s)%s" % (t[1], "0x%xu" % (v & 0xffffffff))
        if k == "p":
            return "(int*)0" if v < 0 else "&arr[%d]" % v
        if k == "c":
            return "(char*)0" if v < 0 else "&txt[%d]" % v
        if k == "f":
            return "%d.0f" % v if v >= 0 else "(-%d.0f)" % -v
        if k == "s":
            return "gs%d[%d]" % (t[1], v)
        if k == "q":
            return "&gs%d[%d]" % (t[1], v)
        return ("l0", "l1", "l2", "l3")[v] if k == "fp" else "0"

    def leafname(self, v):
        s = self.p["leaf"][v % 2]
        return ("l%d" if self.ref or s == self.mode else "x_l%d") % v

    def ex(self, t, e):
        if e[0] == "k":
            if t[0] == "fp":
                return self.leafname(e[1])
            return self.const(t, e[1])
        if e[0] == "P":
            return "a%d" % e[1]
        if e[0] == "+":
            return "(%s)((unsigned)%s + (unsigned)%s)" % (t[1], self.ex(t, e[1]), self.ex(["i", "unsigned"], e[2]))
        return self.call(e[1], e[2])

    def call(self, k, args, fn=None):
        f = self.p["funcs"][k]
        ts = f["ps"] + f["va"]
        a = []
        for i, (t, e) in enumerate(zip(ts, args)):
            a.append(self.ex(t, e))
        s = "%s(%s)" % (fn or self.cname(k), ", ".join(a))
        if f["ret"][0] == "fp":
            return "(int (*)(int, int))" + s
        if f["ret"][0] == "f" and self.mode == "G" and not self.ref:
            return "u2f(%s)" % s
        if f["ret"][0] == "i" and self.fret(f) != f["ret"]:
            return "(%s)%s" % (f["ret"][1], s)
        return s

    def show(self, t, x):
        """Statements that print a value (x has no side effects)."""
        k = t[0]
        if k == "v":
            return ""
        if k == "i":
            return "out(%s);" % x
        if k == "p":
            return "out(%s ? (unsigned)(%s - arr) : 77);" % (x, x)
        if k == "c":
            return "out(%s ? (unsigned)(%s - txt) : 78);" % (x, x)
        if k == "f":
            return "out(f2u(%s));" % x
        if k == "q":
            return "out((unsigned)(%s - gs%d));" % (x, t[1]) + self.show(["s", t[1]], "(*%s)" % x)
        if k == "fp":
            return "out(%s(%d, %d));" % (x, 11, 5)
        st = self.p["structs"][t[1]]
        r = "out(sizeof %s);" % x
        for i, (mt, n) in enumerate(st["mem"]):
            if st["u"] and i != self.active(t[1]):
                continue
            for j in range(n or 1):
                r += self.show(mt, "%s.m%d%s" % (x, i, "[%d]" % j if n else ""))
        return r

    def active(self, k):
        return k % len(self.p["structs"][k]["mem"])

    def init(self, t, n, seed):
        """Statements filling the object n."""
        st = self.p["structs"][t[1]]
        r = ""
        for i, (mt, m) in enumerate(st["mem"]):
            if st["u"] and i != self.active(t[1]):
                continue
            for j in range(m or 1):
                x = "%s.m%d%s" % (n, i, "[%d]" % j if m else "")
                seed = (seed * 1103515245 + 12345) & 0x7fffffff
                if mt[0] == "s":
                    r += self.init(mt, x, seed)
                    continue
                v = seed >> 3
                if mt[0] in ("p", "c"):
                    v = v % 8
                elif mt[0] == "f":
                    v %= 1000000
                elif mt[0] == "q":
                    v %= 3
                r += "%s = %s;\n" % (x, self.const(mt, v))
        return r

    def text(self):
        p = self.p
        o = ["#include <stdarg.h>"]
        o.append("void out(unsigned);\nextern int arr[8];\nextern char txt[8];")
        for k, s in enumerate(p["structs"]):
            if s["pack"]:
                o.append("#pragma pack(push, %d)" % s["pack"])
            o.append("%s S%d {" % ("union" if s["u"] else "struct", k))
            for i, (t, n) in enumerate(s["mem"]):
                o.append("  %s%s;" % (self.ct(t, "m%d" % i), "[%d]" % n if n else ""))
            o.append("};")
            if s["pack"]:
                o.append("#pragma pack(pop)")
            o.append("extern %s;" % self.ct(["s", k], "gs%d[3]" % k))
        o.append("static unsigned f2u(float f) { return *(unsigned*)&f; }\nstatic float u2f(unsigned u) { return *(float*)&u; }" if p["arch"] == "x86" else "")
        for v in range(4):
            o.append("int %s(int, int);" % self.leafname(v))
        for k in range(len(p["funcs"])):
            o.append(self.sig(k, self.cname(k)) + ";")
        for k, f in enumerate(p["funcs"]):
            if f["side"] == self.mode:
                o.append(self.sig(k, "f%d" % k) + "\n{")
                o += self.fbody(k, f)
                o.append("}")
        for v in range(4):
            if p["leaf"][v % 2] == self.mode:
                o.append("int l%d(int x, int y) { out(%d + x); return x %s y; }" % (v, 100 + v, "+-*^"[v]))
        if self.mode == "S":
            o.append("int arr[8] = {1,2,3,4,5,6,7,8};\nchar txt[8] = \"abcdefg\";")
            for k in range(len(p["structs"])):
                o.append(self.ct(["s", k], "gs%d[3];" % k))
                for i in range(3):
                    o.append("static void in%d_%d(void) {\n%s}" % (k, i, self.init(["s", k], "gs%d[%d]" % (k, i), 7919 * k + 31 * i + 5)))
            o.append("void fillg(void) {" + "".join("in%d_%d();" % (k, i) for k in range(len(p["structs"])) for i in range(3)) + "}")
        else:
            o.append("void fillg(void);")
        if p["mside"] == self.mode:
            o.append("int smain(void)\n{")
            o += self.stmts(p["main"])
            o.append("  return 5;\n}")
        return "\n".join(o) + "\n"

    def fbody(self, k, f):
        o = []
        if f["va"]:
            o.append("  va_list va;")
        for i, t in enumerate(f["va"]):
            o.append("  %s;" % self.ct(t, "v%d" % i))
        if f["ret"] != ["v"]:
            o.append("  %s;" % self.ct(f["ret"], "r"))
        o.append("  out(0x%x);" % (0xF000 + k))
        for i, t in enumerate(f["ps"]):
            o.append("  " + self.show(t, "a%d" % i))
        if f["va"]:
            o.append("  va_start(va, a%d);" % (len(f["ps"]) - 1))
            for i, t in enumerate(f["va"]):
                o.append("  v%d = va_arg(va, %s);" % (i, self.ct(t)))
                o.append("  " + self.show(t, "v%d" % i))
            o.append("  va_end(va);")
        o += self.stmts(f["body"])
        for i, t in enumerate(f["ps"]):          # the parameters must have survived the calls
            if f["body"]:
                o.append("  " + self.show(t, "a%d" % i))
        if f["rv"] is not None:
            o.append("  r = %s;" % self.ex(f["ret"], f["rv"]))
            o.append("  out(0x%x);" % (0xE000 + k))
            if f["ret"][0] == "fp":
                o.append("  return (char*)r;")
            elif f["ret"][0] == "f" and self.fret(f)[0] == "i":
                o.append("  return f2u(r);")
            else:
                o.append("  return r;")
        return o

    def stmts(self, lst):
        o = []
        for n, (how, k, args) in enumerate(lst):
            f = self.p["funcs"][k]
            fn = None
            o.append("  {")
            if f["ret"] != ["v"]:
                o.append("  %s;" % self.ct(f["ret"], "r"))
            if how == "ind":
                o.append("  %s = %s;" % (self.sig(k, "(*fp)"), self.cname(k)))
                fn = "fp"
            c = self.call(k, args, fn)
            if f["ret"] == ["v"]:
                o.append("  %s;" % c)
            elif how == "two" and f["ret"][0] == "i":
                o.append("  r = (%s)((unsigned)%s * 3 + 1);" % (f["ret"][1], c))
            else:
                o.append("  r = %s;" % c)
            if f["ret"] != ["v"]:
                o.append("  " + self.show(f["ret"], "r"))
            o.append("  }")
        return o


def thunks_x86(p):
    o = ["bits 32", "section .text", "extern smain, fillg, out_flush", "global x_end"]
    todo = [("f%d" % k, f["side"]) for k, f in enumerate(p["funcs"])] + [("l%d" % v, p["leaf"][v % 2]) for v in range(4)]
    for n, side in todo:
        o.append("extern %s\nglobal x_%s\nx_%s:" % (n, n, n))
        o.append("  mov ecx,[side]\n  pop dword [ecx]\n  mov [ecx+4],ebx\n  mov [ecx+8],esi\n  mov [ecx+12],edi\n  mov [ecx+16],ebp\n  mov [ecx+20],esp\n  add dword [side],24\n  inc dword [cross]")
        o.append("  mov eax,0x1badbad1\n  mov ecx,eax\n  mov edx,eax\n  mov ebx,eax\n  mov esi,eax\n  mov edi,eax\n  call %s" % n)
        o.append("  mov ecx,[side]\n  sub ecx,24\n  mov [side],ecx\n  cmp esp,[ecx+20]\n  jne near bad\n  cmp ebp,[ecx+16]\n  jne near bad")
        if side == "S" or n[0] == "l":      # l0-l3 are also called through pointers, from either side
            o.append("  mov ebx,[ecx+4]\n  mov esi,[ecx+8]\n  mov edi,[ecx+12]")
        else:
            o.append("  mov ebx,0xbadbad2\n  mov esi,ebx\n  mov edi,ebx")
        o.append("  push dword [ecx]\n  mov ecx,0xbadbad3\n  mov edx,ecx\n  ret")
    o.append("global _start\n_start:\n  mov dword [side],stk\n  xor ebp,ebp\n  and esp,-16\n  mov edi,esp\n  mov [sp0],esp\n  call fillg\n  call smain\n  mov [rc],eax\n  cmp esp,[sp0]\n  jne bad\n  cmp ebp,0\n  jne bad\n  push dword [cross]\n  call out\n  pop ecx\n  call flush_\n  mov eax,1\n  mov ebx,[rc]\n  int 0x80")
    o.append("extern out, flush_\nbad:\n  mov esp,[sp0]\n  push 0xbad57ac4\n  call out\n  call flush_\n  mov eax,1\n  mov ebx,99\n  int 0x80")
    o.append("section .bss\nalignb 4\nside: resd 1\ncross: resd 1\nrc: resd 1\nsp0: resd 1\nstk: resb 24000")
    return "\n".join(o) + "\n"


def thunks_mips(p):
    o = ["\t.set noreorder", "\t.set noat", "\t.text"]
    todo = [("f%d" % k, f["side"]) for k, f in enumerate(p["funcs"])] + [("l%d" % v, p["leaf"][v % 2]) for v in range(4)]
    sv = list(range(16, 24)) + [29, 30]
    for n, side in todo:
        o.append("\t.globl x_%s\nx_%s:" % (n, n))
        o.append("  la $8, side\n  lw $9, 0($8)\n  sw $31, 0($9)")
        for i, r in enumerate(sv):
            o.append("  sw $%d, %d($9)" % (r, 4 + 4 * i))
        o.append("  addiu $9, $9, 48\n  sw $9, 0($8)\n  la $8, cross\n  lw $9, 0($8)\n  addiu $9, $9, 1\n  sw $9, 0($8)")
        for r in (1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25):
            o.append("  li $%d, 0x1bad%04x" % (r, r))
        if side == "S":          # values to be found unchanged
            for r in range(16, 24):
                o.append("  li $%d, 0x5ead%04x" % (r, r))
        o.append("  jal %s\n  nop" % n)
        o.append("  la $8, side\n  lw $9, 0($8)\n  addiu $9, $9, -48\n  sw $9, 0($8)")
        o.append("  lw $10, 36($9)\n  bne $10, $29, badm\n  nop\n  lw $10, 40($9)\n  bne $10, $30, badm\n  nop")
        for i, r in enumerate(range(16, 24)):
            if side == "S":
                o.append("  li $10, 0x5ead%04x\n  bne $10, $%d, badm\n  nop" % (r, r))
            o.append("  lw $%d, %d($9)" % (r, 4 + 4 * i))
        o.append("  lw $31, 0($9)")
        for r in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25):
            o.append("  li $%d, 0x2bad%04x" % (r, r))
        o.append("  jr $31\n  nop")
    o.append("""\t.globl main
main:
  la $8, side
  la $9, stk
  sw $9, 0($8)
  addiu $29, $29, -32
  sw $31, 16($29)
  la $8, sp0
  sw $29, 0($8)
  jal fillg
  nop
  jal smain
  nop
  la $8, sp0
  lw $9, 0($8)
  bne $9, $29, badm
  nop
  la $8, rc
  sw $2, 0($8)
  la $8, cross
  lw $4, 0($8)
  jal out
  nop
  la $8, rc
  lw $2, 0($8)
  lw $31, 16($29)
  addiu $29, $29, 32
  jr $31
  nop
badm:
  la $8, sp0
  lw $29, 0($8)
  li $4, 0xbad57ac4
  jal out
  nop
  li $2, 99
  lw $31, 16($29)
  addiu $29, $29, 32
  jr $31
  nop
\t.bss
\t.align 2
side: .space 4
cross: .space 4
rc: .space 4
sp0: .space 4
stk: .space 48000
""")
    return "\n".join(o)


RTG = """static char buf[1 << 16];
static unsigned pos;
void flush_(void)
{
  int r;
  __asm__ volatile("int $0x80" : "=a"(r) : "0"(4), "b"(1), "c"(buf), "d"(pos) : "memory");
  pos = 0;
}
void out(unsigned v)
{
  int i;
  for (i = 28; i >= 0; i -= 4)
    buf[pos++] = "0123456789abcdef"[(v >> i) & 15];
  buf[pos++] = 10;
  if (pos > 60000)
    flush_();
}
void* memcpy(void* d, const void* s, unsigned n) { char* a = d; const char* b = s; while (n--) *a++ = *b++; return d; }
void* memset(void* d, int c, unsigned n) { char* a = d; while (n--) *a++ = c; return d; }
"""
RTREF = RTG + """int smain(void); void fillg(void);
void _start_c(void)
{
  int rc;
  fillg();
  rc = smain();
  flush_();
  __asm__ volatile("int $0x80" : : "a"(1), "b"(rc & 255));
  for (;;) ;
}
__asm__(".globl _start\\n_start:\\nxor %ebp,%ebp\\nand $-16,%esp\\ncall _start_c\\n");
"""
GX = ["gcc", "-m32", "-w", "-std=gnu99", "-fwrapv", "-fno-strict-aliasing", "-ffreestanding", "-fno-pic", "-fno-stack-protector", "-fno-builtin", "-mfpmath=sse", "-msse2", "-fpcc-struct-return", "-fno-asynchronous-unwind-tables", "-fcf-protection=none", "-mpreferred-stack-boundary=2"]
GM = ["mipsel-linux-gnu-gcc", "-w", "-std=gnu99", "-fwrapv", "-fno-strict-aliasing", "-ffreestanding", "-fno-builtin", "-mno-abicalls", "-fno-pic", "-march=mips32r2", "-msoft-float", "-fno-asynchronous-unwind-tables", "-G0"]


def setup(tc):
    targets.setup(tc, "mips")


def must(cmd, work, what):
    r = run(cmd, cwd=work, cpu=60)
    if r.rc:
        raise Infra("%s: %s" % (what, (r.out + r.err).decode("latin-1")[-1500:]))


def w(work, n, s):
    with open(os.path.join(work, n), "w", encoding="latin-1") as f:
        f.write(s)


def build(tc, p, work):
    """-> (reference command, mixed command); raises targets.Step when this tree's tools refuse."""
    x86 = p["arch"] == "x86"
    g = (GX if x86 else GM) + (["-funsigned-char"] if p["uchar"] else ["-fsigned-char"])
    for m in "SG":
        w(work, "ref%s.c" % m, Render(p, m, True).text())
        w(work, "mix%s.c" % m, Render(p, m, False).text())
    uc = ["-unsigned-char"] if p["uchar"] else ["-signed-char"]
    if x86:
        w(work, "rtref.c", RTREF)
        w(work, "rtg.c", RTG)
        w(work, "th.asm", thunks_x86(p))
        must(g + ["-O0", "-nostdlib", "-static", "-no-pie", "refS.c", "refG.c", "rtref.c", "-o", "ref"], work, "gcc")
        must(g + [p["gopt"], "-c", "mixG.c"], work, "gcc")
        must(g + ["-O1", "-c", "rtg.c"], work, "gcc")
        must(["nasm", "-f", "elf", "th.asm", "-o", "th.o"], work, "nasm")
        targets._do("smlrcc", [tc.tool("smlrcc"), "-elf", "-I", os.path.join(tc.src, "include"), "-no-leading-underscore", *uc, "-c", "mixS.c", "-o", "mixS.o"], work, tc.env())
        if p["link"] == "ld":
            must(["ld", "-m", "elf_i386", "mixS.o", "mixG.o", "rtg.o", "th.o", "-o", "mix", "--no-warn-execstack"], work, "ld")
        else:
            targets._do("smlrl", [tc.tool("smlrl"), "-elf", "-entry", "_start", "mixS.o", "mixG.o", "rtg.o", "th.o", "-o", "mix"], work)
        os.chmod(os.path.join(work, "mix"), 0o755)
        return ["./ref"], ["./mix"]
    rt = os.path.join(tc.dir, "rt", "rtmips.o")
    w(work, "rtref.c", "int smain(void); void fillg(void); int main(void) { fillg(); return smain(); }\nvoid* memcpy(void* d, const void* s, unsigned n) { char* a = d; const char* b = s; while (n--) *a++ = *b++; return d; }\nvoid* memset(void* d, int c, unsigned n) { char* a = d; while (n--) *a++ = c; return d; }\n")
    w(work, "rtg.c", "void* memcpy(void* d, const void* s, unsigned n) { char* a = d; const char* b = s; while (n--) *a++ = *b++; return d; }\nvoid* memset(void* d, int c, unsigned n) { char* a = d; while (n--) *a++ = c; return d; }\n")
    w(work, "th.s", thunks_mips(p))
    must(g + ["-O0", "-nostdlib", "-static", "refS.c", "refG.c", "rtref.c", rt, "-o", "ref"], work, "mips gcc")
    targets._do("smlrpp", [tc.tool("smlrpp"), "-zI", "-I", os.path.join(tc.src, "include"), "-D__SMALLER_PP__", "mixS.c", "-o", "mixS.i"], work)
    targets._do("smlrc", [tc.tool("smlrcmips"), *uc, "mixS.i", "mixS.s"], work)
    must(["mipsel-linux-gnu-gcc", "-c", "-mno-abicalls", "-march=mips32r2", "-msoft-float", "mixS.s", "-o", "mixS.o"], work, "mips as")
    must(g + ["-nostdlib", "-static", p["gopt"], "mixG.c", "mixS.o", "rtg.c", "th.s", rt, "-o", "mix"], work, "mips gcc")
    return ["qemu-mipsel", "./ref"], ["qemu-mipsel", "./mix"]


def check(tc, p, work):
    try:
        ref, mix = build(tc, p, work)
    except targets.Step as s:
        if b"Expression too long" in s.r.out:          # a limit of the compiler, see doc/smlrc.md
            return None, {"evaluations": 0, "too_long": 1}
        return {"msg": "rejected a valid program: %s\n%s" % (s, Render(p, "S", False).text())}, {"evaluations": 1}
    a = run(ref, cwd=work, cpu=20)
    if a.rc != 5:
        raise Infra("the reference ends with %s" % a.rc)
    b = run(mix, cwd=work, cpu=20)
    if b.rc == "wall":
        raise Infra("wall")
    ea, eb = targets.parse_words(a.out), targets.parse_words(b.out)
    cross = eb.pop() if b.rc == 5 and eb else 0
    st = {"evaluations": 1, "by_arch": {p["arch"] + "/" + p["link"]: 1}, "words_compared": len(ea), "crossing_calls": cross,
          "nontrivial_keys": [hashlib.md5(repr(p).encode()).hexdigest()[:12]] if cross >= 3 and len(ea) >= 10 else []}
    if ea != eb or b.rc != 5:
        n = next((i for i in range(min(len(ea), len(eb))) if ea[i] != eb[i]), min(len(ea), len(eb)))
        h = lambda l: " ".join("%x" % v if isinstance(v, int) else v for v in l)
        why = " (a call came back with the stack or frame pointer changed)" if 0xbad57ac4 in eb else ""
        return {"msg": "%s, %s: word %d: gcc alone prints %s, the mixed program %s; ends with %s%s\n--- this compiler's file\n%s\n--- gcc's file\n%s" % (
            p["arch"], p["link"], n, h(ea[max(0, n - 3):n + 4]), h(eb[max(0, n - 3):n + 4]), b.rc, why, Render(p, "S", False).text(), Render(p, "G", False).text())}, st
    return None, st


def exs(e):
    """Variants of an expression."""
    if e[0] == "call":
        for i, a in enumerate(e[2]):
            for v in exs(a):
                yield ["call", e[1], e[2][:i] + [v] + e[2][i + 1:]]
    if e[0] == "+":
        yield e[1]
        for v in exs(e[1]):
            yield ["+", v, e[2]]
        for v in exs(e[2]):
            yield ["+", e[1], v]
    if e[0] != "k" or e[1] not in (0, 1):
        yield ["k", 1]
        yield ["k", 0]


def used(p):
    s = set()

    def ex(e):
        if e and e[0] == "call":
            s.add(e[1])
            for a in e[2]:
                ex(a)
        elif e and e[0] == "+":
            ex(e[1]); ex(e[2])
    for f in p["funcs"]:
        for _, k, a in f["body"]:
            s.add(k)
            for e in a:
                ex(e)
        ex(f["rv"])
    for _, k, a in p["main"]:
        s.add(k)
        for e in a:
            ex(e)
    return s


def candidates(p):
    for i in range(len(p["main"])):
        if len(p["main"]) > 1:
            yield {**p, "main": p["main"][:i] + p["main"][i + 1:]}
    for j, f in enumerate(p["funcs"]):
        def put(**kw):
            return {**p, "funcs": p["funcs"][:j] + [{**f, **kw}] + p["funcs"][j + 1:]}
        if f["body"]:
            yield put(body=[])
            for i in range(len(f["body"])):
                yield put(body=f["body"][:i] + f["body"][i + 1:])
        if f["rv"] is not None and f["rv"][0] != "k":
            yield put(rv=["k", 1])
        for i, (h, k, a) in enumerate(f["body"]):
            for n, e in enumerate(a):
                for v in exs(e):
                    yield put(body=f["body"][:i] + [[h, k, a[:n] + [v] + a[n + 1:]]] + f["body"][i + 1:])
    for i, (h, k, a) in enumerate(p["main"]):
        for n, e in enumerate(a):
            for v in exs(e):
                yield {**p, "main": p["main"][:i] + [[h, k, a[:n] + [v] + a[n + 1:]]] + p["main"][i + 1:]}
    u = used(p)
    if len(p["funcs"]) > 1 and len(p["funcs"]) - 1 not in u:
        yield {**p, "funcs": p["funcs"][:-1]}
    # drop a parameter with its arguments
    for j, f in enumerate(p["funcs"]):
        for i in range(len(f["ps"]) - (1 if f["va"] else 0)):
            q = drop(p, j, i)
            if q:
                yield q
        if f["va"]:
            q = drop(p, j, len(f["ps"]) + len(f["va"]) - 1)
            if q:
                yield q
    for k, v in (("uchar", False), ("link", "ld"), ("gopt", "-O0")):
        if p[k] != v:
            yield {**p, k: v}


def drop(p, j, i):
    f = p["funcs"][j]
    bad = []

    def ex(e, own):
        if e is None:
            return e
        if e[0] == "P" and own:
            if e[1] == i:
                bad.append(1)
            return ["P", e[1] - (e[1] > i)]
        if e[0] == "+":
            return ["+", ex(e[1], own), ex(e[2], own)]
        if e[0] == "call":
            a = [ex(x, own) for x in e[2]]
            if e[1] == j:
                del a[i]
            return ["call", e[1], a]
        return e

    def st(l, own):
        return [[h, k, ex(["call", k, a], own)[2]] for h, k, a in l]
    fs = []
    for n, g in enumerate(p["funcs"]):
        own = n == j
        g = {**g, "body": st(g["body"], own), "rv": ex(g["rv"], own)}
        if own:
            np = len(g["ps"])
            g["ps"] = [t for m, t in enumerate(g["ps"]) if m != i]
            g["va"] = [t for m, t in enumerate(g["va"]) if m + np != i]
        fs.append(g)
    q = {**p, "funcs": fs, "main": st(p["main"], False)}
    return None if bad else q


def sample(p):
    return {"arch": p["arch"], "link": p["link"], "S": Render(p, "S", False).text()[:2500], "G": Render(p, "G", False).text()[:2000]}
