"""Float expressions: trees evaluated exactly (f32 bits and mathematical integers), rendered as C functions."""
import hashlib, json
from fractions import Fraction
from . import f32, exprcheck, targets
from .core import run, Infra

ITYPES = {"i": (32, True, "int"), "u": (32, False, "unsigned"), "c": (8, True, "signed char"), "C": (8, False, "unsigned char"), "s": (16, True, "short"), "S": (16, False, "unsigned short")}
# slots: name -> (type, C text, storage)
FSLOTS = [("gf", "global"), ("gf2", "global"), ("lf", "local"), ("lf2", "local"), ("pf", "parameter"), ("pf2", "parameter"), ("ga[2]", "array"), ("la[li3]", "array"), ("st.m", "member"), ("*qf", "pointer"), ("ps->m", "pointer"), ("(&gs)->a[1]", "member")]
ISLOTS = [("gi", "i"), ("gu", "u"), ("li", "i"), ("lu", "u"), ("pi", "i"), ("pu", "u"), ("gc", "c"), ("gC", "C"), ("gsh", "s"), ("gS", "S"), ("lc", "c"), ("lS", "S"), ("st.k", "i"), ("*qi", "i")]
CTX = ["fset", "iset", "uset", "cset", "Sset", "if", "not", "tern", "while", "for", "and", "or", "retf", "reti", "retu", "argf", "argi", "argu", "arr", "ptr", "cmp0", "do", "var", "stmt"]


class UB(Exception):
    pass


def wrapi(v, t):
    """Value of type t; out of range signed results are errors for int arithmetic, wraps on conversion."""
    b, s, _ = ITYPES[t]
    v &= (1 << b) - 1
    return v - (1 << b) if s and v >> b - 1 else v


def i2f(v):
    return f32.rnd(Fraction(v))


def f2i(b, t):
    if f32.is_nan(b) or f32.is_inf(b):
        raise UB
    n = f32.frac(b)
    n = n.numerator // n.denominator if n >= 0 else -((-n).numerator // (-n).denominator)
    if n != wrapi(n, t):
        raise UB
    return n


def conv(v, a, b):
    if b == "f":
        return v if a == "f" else i2f(v)
    return f2i(v, b) if a == "f" else wrapi(v, b)


def fadd(a, b):
    if f32.is_nan(a) or f32.is_nan(b):
        return f32.NAN
    if f32.is_inf(a) or f32.is_inf(b):
        if f32.is_inf(a) and f32.is_inf(b):
            return a if a == b else f32.NAN
        return a if f32.is_inf(a) else b
    s = f32.frac(a) + f32.frac(b)
    return f32.rnd(s, 1 if s == 0 and a >> 31 and b >> 31 else 0)


def fmul(a, b):
    if f32.is_nan(a) or f32.is_nan(b):
        return f32.NAN
    sg = (a ^ b) & 0x80000000
    if f32.is_inf(a) or f32.is_inf(b):
        return f32.NAN if a & 0x7fffffff == 0 or b & 0x7fffffff == 0 else sg | f32.INF
    return sg | f32.rnd(abs(f32.frac(a) * f32.frac(b)))


def fdiv(a, b):
    if f32.is_nan(a) or f32.is_nan(b):
        return f32.NAN
    sg = (a ^ b) & 0x80000000
    za, zb = a & 0x7fffffff == 0, b & 0x7fffffff == 0
    if f32.is_inf(a):
        return f32.NAN if f32.is_inf(b) else sg | f32.INF
    if f32.is_inf(b):
        return sg
    if zb:
        return f32.NAN if za else sg | f32.INF
    return sg | f32.rnd(abs(f32.frac(a) / f32.frac(b)))


def fcmp(a, b):
    """-1, 0, 1 or None."""
    if f32.is_nan(a) or f32.is_nan(b):
        return None
    k = lambda x: (Fraction(2) ** 200 if x == f32.INF else -Fraction(2) ** 200 if x == f32.NINF else f32.frac(x))
    x, y = k(a), k(b)
    return (x > y) - (x < y)


def prom(t):
    return t if t in "iu" else "i"


def ev(e, env):
    """-> (type, value)"""
    r = ev_(e, env)
    if r[0] == "f" and f32.is_nan(r[1]) and "nonan" in env:
        raise UB
    return r


def ev_(e, env):
    o = e[0]
    if o == "lit":
        return e[2], e[3]
    if o == "var":
        return env[e[1]]
    if o == "cast":
        t, v = ev(e[2], env)
        return e[1], conv(v, t, e[1])
    if o in ("neg", "pos", "not", "inv"):
        t, v = ev(e[1], env)
        if o == "not":
            return "i", int((v & 0x7fffffff) == 0 if t == "f" else v == 0)
        if t == "f":
            return ("f", v ^ 0x80000000 if o == "neg" else v)
        t2 = prom(t)
        r = -v if o == "neg" else ~v if o == "inv" else v
        return t2, chk(r, t2)
    if o in ("+", "-", "*", "/", "%", "&", "|", "^"):
        a, b = ev(e[1], env), ev(e[2], env)
        if a[0] == "f" or b[0] == "f":
            x, y = conv(a[1], a[0], "f"), conv(b[1], b[0], "f")
            return "f", {"+": fadd, "-": lambda p, q: fadd(p, q ^ 0x80000000), "*": fmul, "/": fdiv}[o](x, y)
        t = "u" if prom(a[0]) == "u" or prom(b[0]) == "u" else "i"
        x, y = wrapi(a[1], t), wrapi(b[1], t)
        if o in "/%":
            if y == 0:
                raise UB
            if t == "i" and x == -1 << 31 and y == -1:
                raise UB
            q = abs(x) // abs(y) * (-1 if (x < 0) != (y < 0) else 1)
            return t, chk(q if o == "/" else x - q * y, t)
        return t, chk({"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[o], t)
    if o in ("<", ">", "<=", ">=", "==", "!="):
        a, b = ev(e[1], env), ev(e[2], env)
        if a[0] == "f" or b[0] == "f":
            c = fcmp(conv(a[1], a[0], "f"), conv(b[1], b[0], "f"))
        else:
            t = "u" if prom(a[0]) == "u" or prom(b[0]) == "u" else "i"
            x, y = wrapi(a[1], t), wrapi(b[1], t)
            c = (x > y) - (x < y)
        if c is None:
            return "i", int(o == "!=")
        return "i", int({"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[o])
    if o in ("&&", "||"):
        a = truth(ev(e[1], env))
        b = truth(ev(e[2], env))     # both sides have to be free of undefined behaviour
        return "i", int(a and b if o == "&&" else a or b)
    if o == "?":
        c = truth(ev(e[1], env))
        a, b = ev(e[2], env), ev(e[3], env)
        if a[0] == "f" or b[0] == "f":
            t = "f"
        else:
            t = "u" if prom(a[0]) == "u" or prom(b[0]) == "u" else "i"
        r = a if c else b
        return t, conv(r[1], r[0], t)
    if o == ",":
        ev(e[1], env)
        return ev(e[2], env)
    if o == "call":
        n = e[1]
        a = [ev(x, env) for x in e[2:]]
        f = lambda k: conv(a[k][1], a[k][0], "f")
        i = lambda k: conv(a[k][1], a[k][0], "i")
        if n == "idf":
            return "f", f(0)
        if n == "idi":
            return "i", i(0)
        if n == "idC":
            return "C", conv(a[0][1], a[0][0], "C")
        if n == "sub2":
            return "f", fadd(f(0), f(1) ^ 0x80000000)
        if n == "mix":
            c = fcmp(f(1), f32.rnd(Fraction(1)))
            i(0), conv(a[2][1], a[2][0], "u")
            return "f", (f(1) if c is None or c > 0 else i2f(i(0)) if i(0) & 1 else i2f(conv(a[2][1], a[2][0], "u")))
        if n == "va":          # va(k, ...): the k-th float
            for t, v in a[1:]:
                if t != "f":
                    raise UB
            return "f", a[1 + a[0][1]][1]
    raise KeyError(o)


def chk(r, t):
    if t == "u":
        return r & 0xffffffff
    if not -(1 << 31) <= r < 1 << 31:
        raise UB
    return r


def truth(tv):
    return (tv[1] & 0x7fffffff) != 0 if tv[0] == "f" else tv[1] != 0


def text(e):
    o = e[0]
    if o == "lit":
        return e[1]
    if o == "var":
        return e[1]
    if o == "cast":
        return "(%s)%s" % ("float" if e[1] == "f" else ITYPES[e[1]][2], wrap(e[2]))
    if o in ("neg", "pos", "not", "inv"):
        return {"neg": "-", "pos": "+", "not": "!", "inv": "~"}[o] + wrap(e[1])
    if o == "?":
        return "(%s ? %s : %s)" % tuple(wrap(x) for x in e[1:])
    if o == "call":
        return "%s(%s)" % (e[1], ", ".join(text(x) if x[0] != "," else "(" + text(x) + ")" for x in e[2:]))
    if o == ",":
        return "(%s, %s)" % (wrap(e[1]), wrap(e[2]))
    return "(%s %s %s)" % (wrap(e[1]), o, wrap(e[2]))


def wrap(e):
    return text(e) if e[0] in ("var", "?", "call", ",") or e[0] == "lit" and not e[1].startswith("-") else "(" + text(e) + ")"


# ---- generation
def flit(rng):
    """(spelling, bits) of a float constant; the spelling determines the bits exactly."""
    k = rng.randrange(8)
    if k == 0:
        s = rng.choice(["0.0", "1.0", ".5", "2.", "1e0", "1.5", "0.1", "3.0e-1", "1e10", "16777216.0", "16777217.0", "2147483648.0", "4294967296.0", "1e38", "3.4028235e38", "1e-45", "7e-46", "1.17549435e-38", "00.5", "0e5"])
    elif k == 1:
        s = repr(float(f32.to_float(rng.randrange(0, f32.INF))))
    elif k == 2:     # exact decimal expansion, or its neighbours half way to the next float
        b = rng.choice([rng.randrange(100, 150) << 23, rng.randrange(0, 254) << 23]) | rng.getrandbits(23)
        v = f32.frac(b)
        if rng.random() < 0.6:
            v = (v + f32.frac(b + 1)) / 2
        s = expand(v, rng)
    elif k == 3:
        s = "%d.%d" % (rng.randrange(1000), rng.randrange(10 ** rng.randrange(1, 12)))
    elif k == 4:
        s = "%de%d" % (rng.randrange(1, 10 ** rng.randrange(1, 20)), rng.randrange(-50, 20))
    elif k == 5:
        n = rng.choice([5, 30, 108, 111, 112, 113, 114, 140])
        d = "".join(rng.choice("0123456789") for _ in range(n)).lstrip("0") or "7"
        p = rng.randrange(len(d) + 1)
        s = d[:p] + "." + d[p:] + rng.choice(["", "e%d" % rng.randrange(-90, 10)])
    elif k == 6:
        s = "%d.0" % rng.randrange(1 << rng.randrange(1, 34))
    else:
        s = "0." + "0" * rng.randrange(0, 60) + str(rng.randrange(1, 10 ** rng.randrange(1, 14)))
    s += rng.choice(["", "f", "F", "", "L", "l"]) if "." in s or "e" in s else ".0"
    return s, litbits(s)


def litval(s):
    s = s.rstrip("fFlL").lower()
    m, _, x = s.partition("e")
    a, _, b = m.partition(".")
    return Fraction(int((a + b) or "0")) * Fraction(10) ** (int(x or "0") - len(b))


def litbits(s):
    return f32.rnd(litval(s))


def digits(s):
    m = s.rstrip("fFlL").lower().partition("e")[0].replace(".", "").lstrip("0").rstrip("0")
    return len(m)


def expand(v, rng):
    """Exact decimal expansion of a dyadic fraction, as digits with a point or an exponent."""
    k = v.denominator.bit_length() - 1
    n = v.numerator * 5 ** k       # v = n / 10^k
    s = str(n)
    if len(s) > 105:
        return repr(float(v))
    if rng.random() < 0.5 or k > 120:
        return "%s.%se%d" % (s[0], s[1:], len(s) - 1 - k)
    return s[:-k] + "." + s[-k:] if 0 < k < len(s) else "0." + s.rjust(k, "0") if k else s + ".0"


def ilit(rng, t=None):
    v = rng.choice([0, 1, 2, 3, 7, 100, 255, 256, 65535, 16777215, 16777216, 16777217, 16777219, 33554433, 2147483647, rng.randrange(1 << rng.randrange(1, 31))])
    if rng.random() < 0.3:
        v = rng.choice([v, 2147483648, 4294967295, 4294967040, 4294967167, 4294967168, rng.randrange(1 << 32)])
        return ["lit", "%du" % v, "u", v]
    return ["lit", "%d" % v, "i", v]


def leaf(rng, want, const):
    if const or rng.random() < 0.25:
        if want == "f":
            s, b = flit(rng)
            if const and f32.is_inf(b):
                s, b = "1.0", 0x3f800000
            return ["lit", s, "f", b]
        return ilit(rng)
    if want == "f":
        return ["var", rng.choice(FSLOTS)[0]]
    return ["var", rng.choice(ISLOTS)[0]]


def expr(rng, n, want, const):
    if n <= 1:
        return leaf(rng, want, const)
    r = rng.random()
    sub = lambda w, k: expr(rng, k, w, const)
    k = rng.randrange(1, n) if n > 1 else 1
    any_ = lambda: rng.choice("fffi")
    if want == "f":
        if r < 0.5:
            a, b = rng.choice(["ff", "ff", "fi", "if"])
            return [rng.choice("+-*/"), sub(a, k), sub(b, n - k)]
        if r < 0.6:
            return ["neg", sub("f", n - 1)]
        if r < 0.63:
            return ["pos", sub("f", n - 1)]
        if r < 0.75:
            return ["cast", "f", sub(any_(), n - 1)]
        if r < 0.82:
            a, b = rng.choice(["ff", "fi", "if"])
            return ["?", sub(any_(), max(1, n // 3)), sub(a, max(1, n // 3)), sub(b, max(1, n // 3))]
        if const:
            return [rng.choice("+-*/"), sub("f", k), sub("f", n - k)]
        if r < 0.87:
            return ["call", "idf", sub(any_(), n - 1)]
        if r < 0.91:
            return ["call", "sub2", sub(any_(), k), sub(any_(), n - k)]
        if r < 0.94:
            return ["call", "mix", sub(any_(), max(1, n // 3)), sub(any_(), max(1, n // 3)), sub("i", max(1, n // 3))]
        if r < 0.97:
            m = rng.randrange(1, 5)
            return ["call", "va", ["lit", "%d" % (q := rng.randrange(m)), "i", q]] + [sub("f", max(1, n // m)) for _ in range(m)]
        return [",", sub(any_(), k), sub("f", n - k)]
    if r < 0.3:
        a, b = rng.choice(["ff", "ff", "fi", "if"])
        return [rng.choice(["<", ">", "<=", ">=", "==", "!="]), sub(a, k), sub(b, n - k)]
    if r < 0.4:
        return [rng.choice(["&&", "||"]), sub(any_(), k), sub(any_(), n - k)]
    if r < 0.47:
        return ["not", sub(any_(), n - 1)]
    if r < 0.67:
        return ["cast", rng.choice("iuicCsS"), sub(rng.choice("ffffi"), n - 1)]
    if r < 0.8:
        return [rng.choice(["+", "-", "*", "&", "|", "^", "/", "%"]), sub("i", k), sub("i", n - k)]
    if r < 0.86:
        return ["?", sub(any_(), max(1, n // 3)), sub("i", max(1, n // 3)), sub("i", max(1, n // 3))]
    if r < 0.9:
        return [rng.choice(["neg", "inv", "pos"]), sub("i", n - 1)]
    if const:
        return ["cast", "i", sub("f", n - 1)]
    return ["call", rng.choice(["idi", "idi", "idC"]), sub(any_(), n - 1)]


def fval(rng):
    r = rng.random()
    if r < 0.55:
        return f32.rnd(Fraction(rng.randrange(-100000, 100000), rng.choice([1, 1, 2, 3, 10, 64, 1000]))) | (0x80000000 if rng.random() < 0.03 else 0)
    return f32.gen(rng)


def ival(rng, t):
    v = rng.choice([0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777217, -16777217, 2147483647, -2147483648, 4294967295, 4294967167, 4294967168, 2147483583, 2147483584 + 64, rng.randrange(-100, 100), rng.getrandbits(32), rng.getrandbits(rng.randrange(1, 32))])
    return wrapi(v, t)


def gen_env(rng, nonan):
    env = {n: ["f", fval(rng)] for n, _ in FSLOTS}
    env.update({n: [t, ival(rng, t)] for n, t in ISLOTS})
    if nonan:       # the DOS emulator does not compare NaNs as unordered
        env = {n: v if v[0] != "f" or not f32.is_nan(v[1]) else ["f", 0x7f7fffff] for n, v in env.items()}
        env["nonan"] = ["i", 1]
    return env


CONV = {"fset": "f", "iset": "i", "uset": "u", "cset": "c", "Sset": "S", "retf": "f", "reti": "i", "retu": "u", "argf": "f", "argi": "i", "argu": "u", "arr": "f", "ptr": "f", "var": "f"}


def gen_item(rng, env):
    while True:
        const = rng.random() < 0.25
        want = rng.choice("fffi")
        e = expr(rng, rng.choice([1, 2, 3, 4, 6, 9, 14]), want, const)
        ctx = rng.choice(CTX + (["sinit", "ginit", "linit"] if const else []))
        it = {"e": e, "ctx": ctx, "const": const}
        if cost(e) > 105:
            continue
        try:
            result(it, env)
        except UB:
            continue
        return it


def cost(e):
    """Upper estimate of the compiler's expression stack entries (its limit is 129)."""
    o = e[0]
    if o == "lit":
        return 1
    if o == "var":
        return 1 + 3 * sum(c in "[*>(" for c in e[1]) + (2 if "." in e[1] or ">" in e[1] else 0)
    return (10 if o == "call" else 4 if o == "," else 14) + sum(cost(e[i]) for i in kids(e))


def result(it, env):
    """Expected output word, or 'nan'."""
    t, v = ev(it["e"], env)
    c = it["ctx"]
    if c in ("sinit", "ginit", "linit"):
        c = "fset"
    if c == "var":
        if t != "f":
            raise UB
    if c in CONV:
        w = CONV[c]
        v = conv(v, t, w)
        if w == "f":
            return "nan" if f32.is_nan(v) else v
        return v & 0xffffffff
    if c == "stmt":
        return 0x77
    b = truth((t, v))
    return int(not b) if c == "not" else int(b)


PRE = """void out(unsigned v);
struct T { char x; float m; float a[3]; int k; };
float gf, gf2, ga[4]; int gi; unsigned gu; signed char gc; unsigned char gC; short gsh; unsigned short gS;
struct T gs;
void outf(float f) { out(*(unsigned*)&f); }
void outi(int i) { out(i); }
void outu(unsigned u) { out(u); }
float idf(float f) { return f; }
int idi(int i) { return i; }
unsigned char idC(unsigned char c) { return c; }
float sub2(float a, float b) { return a - b; }
float mix(int i, float f, unsigned u) { if (!(f <= 1.0f)) return f; if (i & 1) return i; return u; }
float va(int k, ...) { float* p = (float*)(&k + 1); return p[k]; }
"""


def locals_(env):
    raw = lambda n: "0x%xu" % (env[n][1] & 0xffffffff)
    o = ["  float lf, lf2, la[3], *qf = &gs.a[2]; int li, li3 = 1, *qi = ga2; unsigned lu; signed char lc; unsigned short lS; struct T st, *ps = &st2;"]
    for n, _ in FSLOTS:
        o.append("  *(unsigned*)&%s = %s;" % (n, raw(n)) if n not in ("pf", "pf2") else "")
    for n, t in ISLOTS:
        if n not in ("pi", "pu"):
            o.append("  %s = %s;" % (n, raw(n)))
    return "\n".join(x for x in o if x)


def program(data):
    env = {k: tuple(v) for k, v in data["env"].items()}
    o = [PRE, "struct T st2; int ga2[2];"]
    exp = []
    loc = locals_(env)
    par = "float pf, int pi, unsigned pu, float pf2"
    main = []
    raw = lambda n: "0x%xu" % (env[n][1] & 0xffffffff)
    for k, it in enumerate(data["items"]):
        c, E = it["ctx"], text(it["e"])
        exp.append(result(it, env))
        t = ev(it["e"], env)[0]
        ret = {"retf": "float", "reti": "int", "retu": "unsigned"}.get(c, "void")
        if c == "ginit":
            o.append("float gi_%d = %s;" % (k, E))
        body = {"fset": "float r; r = %s; outf(r);", "linit": "float r = %s; outf(r);", "sinit": "static float r = %s; outf(r);", "iset": "int r = %s; out(r);", "uset": "unsigned r; r = %s; out(r);",
                "cset": "signed char r; r = %s; out(r);", "Sset": "unsigned short r = %s; out(r);", "if": "if (%s) out(1); else out(0);", "not": "out(!(%s));", "tern": "out((%s) ? 1 : 0);",
                "while": "int n = 0; while (%s) { n = 1; break; } out(n);", "for": "int n = 0; for (; %s; ) { n++; break; } out(n);", "and": "out((%s) && li3);", "or": "out((%s) || !li3);",
                "retf": "return %s;", "reti": "return %s;", "retu": "return %s;", "argf": "outf(%s);", "argi": "outi(%s);", "argu": "outu(%s);", "arr": "float r[3]; r[li3] = %s; outf(r[1]);",
                "ptr": "float r, *q = &r; *q = %s; outf(r);", "cmp0": "out((%s) ? li3 : li3 - 1);", "do": "int n = -1; do { if (++n) break; } while (%s); out(n);", "var": "outf(va(1, 2.0, %s));", "stmt": "%s; out(0x77);"}
        if c == "ginit":
            o.append("void t%d(void) { outf(gi_%d); }" % (k, k))
            main.append("  t%d();" % k)
            continue
        b = body[c] % E
        o.append("%s t%d(%s)\n{\n%s\n  { %s }\n}" % (ret, k, par, loc, b))
        call = "t%d(*(float*)&w[0], %s, %s, *(float*)&w[1])" % (k, raw("pi"), raw("pu"))
        main.append({"retf": "  outf(%s);", "reti": "  outi(%s);", "retu": "  outu(%s);"}.get(c, "  %s;") % call)
    o.append("unsigned w[2] = { %s, %s };\nint main(void)\n{\n%s\n  return 0;\n}\n" % (raw("pf"), raw("pf2"), "\n".join(main)))
    return "\n".join(o), exp


def compile_run(tc, target, src, work):
    try:
        if target == "linux":
            o = targets.nasm(targets.smlrc(tc, "linux", src, work), work)
            exe = targets.link_linux(tc, [o, tc.dir + "/rt/rt32.o", tc.lib + "/lcl.a"], work, work + "/t.exe")
            r = targets.run_native(exe, work)
            if r.rc == "wall":
                raise Infra("wall")
            return targets.parse_words(r.out), None if r.rc == 0 else "program ended with %s" % r.rc
        return exprcheck.run_target(tc, target, src, work)
    except targets.Step as s:
        return None, "rejected a valid program: %s" % s


def check(tc, data, work):
    src, exp = program(data)
    t = data["target"]
    got, err = compile_run(tc, t, src, work)
    st = {"evaluations": len(data["items"]), "by_target": {t: len(data["items"])}, "by_context": {}, "ops": {}, "nontrivial_keys": []}
    for it in data["items"]:
        st["by_context"][it["ctx"]] = st["by_context"].get(it["ctx"], 0) + 1
        n = count(it["e"], st["ops"])
        if n >= 2 or it["const"]:
            st["nontrivial_keys"].append(hashlib.md5(json.dumps([it, data["env"]]).encode()).hexdigest()[:12])
    if got is None:
        return {"msg": err + ("\n" + src if len(data["items"]) < 3 else "")}, st
    for k, (w, g) in enumerate(zip(exp, got + ["missing"] * len(exp))):
        if not (isinstance(g, int) and f32.is_nan(g) if w == "nan" else w == g):
            it = data["items"][k]
            vs = sorted(vars_(it["e"]))
            return {"msg": "%s: %s with context %s, %s: expected %s, got %s (%s)" % (t, text(it["e"]), it["ctx"], ", ".join("%s=%s" % (v, show(data["env"][v])) for v in vs), w if w == "nan" else "%x" % w, g if not isinstance(g, int) else "%x" % g, err), "items": [k]}, st
    if err:
        return {"msg": err}, st
    return None, st


def show(tv):
    return "%08x (%r)" % (tv[1], f32.to_float(tv[1])) if tv[0] == "f" else "%d" % tv[1]


def kids(e):
    return [i for i in range(1, len(e)) if isinstance(e[i], list)]


def count(e, d):
    d[e[0]] = d.get(e[0], 0) + 1
    return 1 + sum(count(e[i], d) for i in kids(e))


def vars_(e):
    return {e[1]} if e[0] == "var" else set().union(*[vars_(e[i]) for i in kids(e)]) if kids(e) else set()


def edits(e):
    """Smaller trees."""
    for i in kids(e):
        yield e[i]
    for i in kids(e):
        for x in edits(e[i]):
            yield e[:i] + [x] + e[i + 1:]
    if e[0] == "lit" and e[2] == "f" and e[1] not in ("1.0", "0.0"):
        yield ["lit", "1.0", "f", 0x3f800000]


def candidates(data):
    if len(data["items"]) != 1:
        return
    it = data["items"][0]
    env = {k: tuple(v) for k, v in data["env"].items()}
    for e in edits(it["e"]):
        for c in (it["ctx"], "fset"):
            n = {**it, "e": e, "ctx": c}
            try:
                result(n, env)
            except (UB, KeyError):
                continue
            yield {**data, "items": [n]}
            break


def sample(data):
    return {"target": data["target"], "items": ["%s: %s" % (i["ctx"], text(i["e"])) for i in data["items"][:5]]}
