"""B10: math functions."""
import math, struct
from fractions import Fraction
from vlib import libcheck, f32
from vlib.f32 import INF, NINF, NAN
from vlib.srv import A

ID = "B10"
QUICK = (400, 30)
THOROUGH = (12000, 900)
TECHNIQUE = "property-based testing: generated arguments against exact rational arithmetic (exact functions) and double-precision references with per-function error bounds"
LEVEL_NOTE = "All functions of <math.h> in both spellings, over all float exponents, specials (signed zeros, denormals, infinities, NaNs), domain edges, exact ties and integers, with errno; Linux exactly, Windows, macOS and DPMI executables under a stand-in loader, samples on huge/unreal DOS in an emulator that computes with doubles."
RULE = "Each evaluation is one call. Non-trivial: all; distinct by function and arguments."
ASSUMPTIONS = ["double is float", "functions built on 2^x reduce their argument in single precision, so that their relative error grows with the magnitude of the exponent (bounded below as |log2 result| half-units)",
               "sin, cos and tan reduce with the x87's 66-bit pi and are only required to stay in range beyond 2^63", "signs of NaNs are not checked"]
PER_CASE = 150
DOS_EVERY = 40
TARGETS = ("linux", "huge", "unreal", "win", "macos", "dosp")
EDOM_, ERANGE_ = 33, 34
ROUND = ("ceil", "floor", "round", "trunc")
ONE = ("fabs", "ceil", "floor", "round", "trunc", "sqrt", "exp", "exp2", "expm1", "log", "log2", "log10", "sin", "cos", "tan", "atan", "acos", "asin", "cosh", "sinh", "tanh")
ALL = ONE + ("frexp", "ldexp", "modf", "hypot", "pow", "atan2", "fmod")
U24 = 2.0 ** -24


def fl(x):
    """Nearest float's bits of a double."""
    if x != x:
        return NAN
    if math.isinf(x):
        return INF if x > 0 else NINF
    return f32.rnd(Fraction(x), 1 if math.copysign(1, x) < 0 else 0)


def arg(rng, f):
    r = rng.random()
    if r < 0.25:
        return f32.gen(rng)
    if r < 0.3:
        return rng.choice([0, 0x80000000, INF, NINF, NAN, 1, 0x80000001, 0x3f800000, 0xbf800000])
    if f in ("exp", "exp2", "expm1", "cosh", "sinh", "tanh"):
        L = {"exp2": 130}.get(f, 90)
        return fl(rng.choice([rng.uniform(-L, L), rng.uniform(-1, 1), rng.uniform(-12, 12), float(rng.randrange(-L, L)), rng.choice([-1, 1]) * L * rng.uniform(0.9, 1.2), 10.0 ** rng.uniform(-30, 0)]))
    if f in ("sin", "cos", "tan"):
        return fl(rng.choice([rng.uniform(-7, 7), rng.uniform(-1e5, 1e5), rng.randrange(-10000, 10000) * math.pi / 2, rng.choice([-1, 1]) * 10.0 ** rng.uniform(-10, 19)]))
    if f in ("log", "log2", "log10", "sqrt"):
        return rng.choice([0x3f800000 + rng.randrange(-3000, 3000), rng.randrange(1, INF), fl(float(rng.randrange(1, 70000))), fl(10.0 ** rng.randrange(-37, 38)), fl(2.0 ** rng.randrange(-149, 128)), fl(float(rng.randrange(1, 4096) ** 2)), rng.randrange(1, 0x800000)])
    if f in ("asin", "acos"):
        return rng.choice([fl(rng.uniform(-1, 1)), rng.getrandbits(1) << 31 | 0x3f800000 + rng.randrange(-2000, 3), fl(10.0 ** rng.uniform(-20, 0))])
    if f == "round":
        return rng.choice([fl(rng.randrange(-4000, 4000) + 0.5), fl(rng.randrange(-(1 << 23), 1 << 23) + 0.5), rng.getrandbits(1) << 31 | 0x3f000000 + rng.randrange(-2, 3), rng.getrandbits(1) << 31 | 0x4b000000 + rng.randrange(-3, 4)])
    if f in ROUND or f == "modf":
        return rng.choice([fl(rng.uniform(-100, 100)), fl(float(rng.randrange(-1 << 24, 1 << 24))), rng.getrandbits(1) << 31 | rng.randrange(120, 152) << 23 | rng.getrandbits(23), fl(rng.randrange(-4000, 4000) / 4)])
    return f32.gen(rng)


def gen_item(rng, b16):
    f = rng.choice(ALL)
    it = {"f": f + rng.choice(["", "f"]), "a": arg(rng, f)}
    if f == "ldexp":
        it["b"] = rng.choice([rng.randrange(-300, 300), rng.randrange(-30, 30), rng.choice([0, 127, 128, -126, -149, -150, 277, 1000, -1000, 32767, -32768, 32768, -40000, 2147483647, -2147483648])]) & 0xffffffff
        if rng.random() < 0.3:  # results among the denormals
            e = it["a"] >> 23 & 255
            it["b"] = (-e - rng.randrange(-2, 26)) & 0xffffffff
    elif f == "pow":
        r = rng.random()
        x = it["a"]
        y = arg(rng, "none")
        if r < 0.3:
            x, y = fl(10.0 ** rng.uniform(-3, 3) * rng.choice([1, 1, -1])), fl(float(rng.randrange(-30, 31)))
        elif r < 0.5:
            x, y = fl(float(rng.randrange(-20, 21))), fl(rng.choice([float(rng.randrange(-12, 13)), rng.randrange(-24, 25) / 2]))
        elif r < 0.65:
            x, y = 0x3f800000 + rng.randrange(-20000, 20000), fl(rng.uniform(-1, 1) * 10 ** rng.uniform(0, 6))
        elif r < 0.8:
            x, y = rng.randrange(1, INF), fl(rng.uniform(-4, 4))
        elif r < 0.9:
            sp = [0, 0x80000000, INF, NINF, NAN, 0x3f800000, 0xbf800000, fl(0.5), fl(-0.5), fl(2.0), fl(-2.0), fl(3.0), fl(-3.0), fl(16777215.0), fl(16777216.0), fl(-16777215.0), fl(8388607.5), fl(-8388607.0)]
            x, y = rng.choice(sp), rng.choice(sp)
        it["a"], it["b"] = x, y
    elif f in ("hypot", "atan2", "fmod"):
        it["b"] = f32.gen(rng)
        r = rng.random()
        e = it["a"] >> 23 & 255
        if r < 0.4:
            it["b"] = rng.getrandbits(1) << 31 | min(254, max(0, e + rng.randrange(-14, 3))) << 23 | rng.getrandbits(23)
        elif r < 0.5:
            sp = [0, 0x80000000, INF, NINF, NAN, 0x3f800000, 0xbf800000, 1]
            it["a"], it["b"] = rng.choice(sp), rng.choice(sp)
        elif r < 0.6 and f == "fmod":
            b = fl(rng.randrange(1, 4000) / rng.choice([1, 2, 8, 64]))
            it["b"], it["a"] = b, f32.rnd(f32.frac(b) * rng.randrange(-4000, 4000))
    return it


def emit(it, s):
    s.fill(0, 32, 0xEE)
    s.call("set_errno", 77)
    args = [it["a"]]
    if base(it) in ("frexp", "modf"):
        args.append(A(8))
    elif "b" in it:
        args.append(it["b"])
    r = s.call(it["f"], *args)
    return (r, s.call("get_errno"), s.d(0, 16))


def base(it):
    f = it["f"]
    return f if f in ALL else f[:-1]


def near(got, want, units, extra=0.0, what=""):
    """want: double. The error in units of half an ulp of a result of that size (2^-24 relative), plus an absolute extra."""
    if f32.is_nan(got):
        return "NaN, expected about %r" % want
    tol = abs(want) * units * U24 + extra + 2.0 ** -149
    if want != want:
        return None if f32.is_nan(got) else "%r, expected NaN" % f32.to_float(got)
    if f32.is_inf(got):
        lim = (2.0 - U24) * 2.0 ** 127
        s = 1 if got == INF else -1
        return None if s * want + tol >= lim else "%r, expected %r" % (f32.to_float(got), want)
    if math.isinf(want):
        g = f32.to_float(got)
        return None if (g > 0) == (want > 0) and abs(g) >= 2.0 ** 128 * (1 - units * U24) else "%r, expected %r" % (g, want)
    g = f32.to_float(got)
    if abs(g - want) > tol:
        return "%r (%08x), expected %r within %g; the error is %g" % (g, got, want, tol, g - want)
    return None


def ref1(f, x):
    try:
        return {"exp": math.exp, "exp2": lambda v: 2.0 ** v, "expm1": math.expm1, "log": math.log, "log2": math.log2, "log10": math.log10, "sin": math.sin, "cos": math.cos,
                "tan": math.tan, "atan": math.atan, "asin": math.asin, "acos": math.acos, "cosh": math.cosh, "sinh": math.sinh, "tanh": math.tanh}[f](x)
    except OverflowError:
        return -math.inf if f == "sinh" and x < 0 else math.inf


def isqrt_rnd(v):
    """Nearest float of the square root of a positive Fraction."""
    k = 400
    n = v.numerator * v.denominator << 2 * k
    r = math.isqrt(n)
    q = Fraction(2 * r + (1 if r * r != n else 0), 2 << k) / v.denominator
    return f32.rnd(q)


def same(got, want):
    return got == want or f32.is_nan(got) and f32.is_nan(want)


def hx(b):
    return "%08x (%r)" % (b, f32.to_float(b))


def exact(got, want):
    return None if same(got, want) else "%s, expected %s" % (hx(got), hx(want))


def expect(it):
    """-> ('exact', bits, errno, stored bytes or None) or ('near', double, units, extra, errno)"""
    f, a = base(it), it["a"]
    nan, inf = f32.is_nan(a), f32.is_inf(a)
    sign = a & 0x80000000
    mag = a & 0x7fffffff
    x = f32.to_float(a)
    ex = lambda b, e=77, st=None: ("exact", b, e, st)
    if f == "fabs":
        return ex(mag)
    if f in ROUND:
        if nan or inf or mag == 0:
            return ex(a)
        v = f32.frac(a)
        n = {"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "round": lambda q: (1 if q >= 0 else -1) * math.floor(abs(q) + Fraction(1, 2))}[f](v)
        return ex(f32.rnd(Fraction(n), sign >> 31))
    if f == "sqrt":
        if nan:
            return ex(NAN)
        if mag == 0:
            return ex(a)
        if sign:
            return ex(NAN, EDOM_)
        return ex(INF if inf else isqrt_rnd(f32.frac(a)))
    if f == "frexp":
        if nan or inf or mag == 0:
            return ex(a, 77, struct.pack("<I", 0))
        v = abs(f32.frac(a))
        e = v.numerator.bit_length() - v.denominator.bit_length()
        while Fraction(2) ** e <= v:
            e += 1
        while Fraction(2) ** (e - 1) > v:
            e -= 1
        return ex(sign | f32.rnd(v / Fraction(2) ** e), 77, struct.pack("<i", e))
    if f == "ldexp":
        if nan or inf or mag == 0:
            return ex(a)
        n = it["b"] - (1 << 32) if it["b"] >> 31 else it["b"]
        n = max(-1000, min(1000, n))
        return ex(sign | f32.rnd(abs(f32.frac(a)) * Fraction(2) ** n))
    if f == "modf":
        if nan or mag == 0:
            return ex(a, 77, struct.pack("<I", a))
        if inf:
            return ex(sign, 77, struct.pack("<I", a))
        v = f32.frac(a)
        n = math.trunc(v)
        return ex(f32.rnd(v - n, sign >> 31), 77, struct.pack("<I", f32.rnd(Fraction(n), sign >> 31)))
    if f == "fmod":
        b = it["b"]
        bn = f32.is_nan(b)
        if inf and bn or nan and b & 0x7fffffff == 0:
            return ex(NAN, None)
        if inf or b & 0x7fffffff == 0:
            return ex(NAN, EDOM_)
        if nan or bn:
            return ex(NAN)
        if f32.is_inf(b) or mag == 0:
            return ex(a)
        v, w = abs(f32.frac(a)), abs(f32.frac(b))
        return ex(sign | f32.rnd(v - w * (v // w)))
    if f == "hypot":
        b = it["b"]
        if inf or f32.is_inf(b):
            return ex(INF)
        if nan or f32.is_nan(b):
            return ex(NAN)
        v = f32.frac(a) ** 2 + f32.frac(b) ** 2
        if v == 0:
            return ex(0)
        k = f32.frac(0x7f7fffff)
        if v > (2 * k) ** 2:
            return ex(INF)
        w = isqrt_rnd(v)
        return ex(w)
    if f == "atan2":
        b = it["b"]
        if nan or f32.is_nan(b):
            return ex(NAN)
        y = f32.to_float(b)
        w = math.atan2(x, y)
        if w == 0 or mag == 0:
            return ex(fl(w)) if w == 0 else ("near", w, 1.02, 0.0, 77)
        return ("near", w, 1.02, 0.0, 77)
    if f == "pow":
        return expow(it)
    # functions of one argument
    if nan:
        return ex(NAN)
    if f in ("exp", "exp2"):
        if inf:
            return ex(0 if sign else INF)
        w = ref1(f, x)
        return ("near", w, 1.1 + (1.4 * abs(x) if f == "exp" else 0), 0.0, 77)
    if f == "expm1":
        if mag == 0:
            return ex(a)
        if inf:
            return ex(fl(-1.0) if sign else INF)
        return ("near", ref1(f, x), 4 + 1.4 * max(1, x), 2.0 ** -148, 77)
    if f in ("sinh", "tanh", "cosh") and inf:
        return ex(a if f == "sinh" else INF if f == "cosh" else fl(-1.0) if sign else 0x3f800000)
    if f == "tanh":
        return ex(a) if mag == 0 else ("near", ref1(f, x), 12, 2.0 ** -147, 77)
    if f == "sinh":
        return ("near", ref1(f, x), 8 + 2 * abs(x), 2.0 ** -147, 77)
    if f == "cosh":
        return ("near", ref1(f, x), 5 + 2.6 * abs(x), 0.0, 77)
    if f in ("log", "log2", "log10"):
        if mag == 0:
            return ex(NINF, ERANGE_)
        if sign:
            return ex(NAN, EDOM_)
        if inf:
            return ex(INF)
        return ("near", ref1(f, x), 1.02, 0.0, 77)
    if f == "atan":
        return ex(a) if mag == 0 else ("near", ref1(f, x), 1.02, 0.0, 77)
    if f in ("asin", "acos"):
        if mag > 0x3f800000:
            return ex(NAN, EDOM_)
        if f == "asin" and mag == 0:
            return ex(a)
        return ("near", ref1(f, x), 1.02, 0.0, 77)
    # sin, cos, tan
    if inf:
        return ex(NAN, EDOM_)
    if mag == 0:
        return ex(a if f != "cos" else 0x3f800000)
    if abs(x) >= 2.0 ** 63:
        return ("range",)
    w = ref1(f, x)
    e = abs(x) * 2.0 ** -62
    return ("near", w, 1.02, e * (1 + w * w) * (1.2 if f == "tan" else 1), 77)


def expow(it):
    a, b = it["a"], it["b"]
    ex = lambda v, e=77: ("exact", v, e, None)
    x, y = f32.to_float(a), f32.to_float(b)
    if b & 0x7fffffff == 0 or a == 0x3f800000:
        return ex(0x3f800000)
    if f32.is_nan(a) or f32.is_nan(b):
        return ex(NAN)
    sign = a >> 31
    if f32.is_inf(b):
        m = a & 0x7fffffff
        return ex(0x3f800000 if m == 0x3f800000 else INF if (m > 0x3f800000) == (y > 0) else 0)
    v = f32.frac(b)
    isint = v.denominator == 1
    odd = isint and v.numerator & 1
    neg = 0x80000000 if sign and odd else 0
    if a & 0x7fffffff == 0:
        return ex(neg | (INF if y < 0 else 0), ERANGE_ if y < 0 else 77)
    if f32.is_inf(a):
        return ex(neg | (0 if y < 0 else INF))
    if sign and not isint:
        return ex(NAN, EDOM_)
    L = y * math.log2(abs(x))
    if L > 1000:
        w = math.inf
    elif L < -1000:
        w = 0.0
    else:
        w = math.pow(abs(x), y)
    if neg:
        w = -w
    if b == 0x3f800000:
        return ex(a)
    return ("near", w, 1.5 + 1.5 * min(1000, abs(L)), 0.0, 77, neg)


def verify(it, hd, o):
    e = expect(it)
    got = o.v[hd[0]]
    mem = o.d(hd[2])
    f = base(it)
    dos = o.target in libcheck.DOS
    if e[0] == "range":
        return "%s, out of range" % hx(got) if f != "tan" and not (abs(f32.to_float(got)) <= 1) and not dos else None
    if dos:
        fin = all(not f32.is_nan(v) and not f32.is_inf(v) for v in (it["a"], it.get("b", 0) if f != "ldexp" else 0))
        big = abs(f32.to_float(it["a"])) > 1e9 or abs(f32.to_float(it["a"])) < 1e-9
        if not fin or big or f == "fmod" or f == "ldexp" and 200 < it["b"] < (1 << 32) - 200 or e[0] == "exact" and (f32.is_nan(e[1]) or f32.is_inf(e[1])):
            return None       # the emulator's own arithmetic
        x = f32.to_float(it["a"])
        if f in ("exp", "exp2", "expm1", "modf") and x < 0 or f == "cosh" and abs(x) < 0.8 or f == "pow" and (e[0] != "near" or not 1 <= abs(e[1]) < 1e30 or abs(f32.to_float(it["b"])) > 1e9):
            return None       # the emulator's frndint loses the sign of zero
    if e[0] == "exact":
        m = exact(got, e[1])
        if m and dos and (got ^ e[1]) & 0x7fffffff == 0:
            m = None
        if not m and e[3] is not None and mem[8:12] != e[3] and not (f == "modf" and dos):
            m = "stored %s, expected %s" % (mem[8:12].hex(), e[3].hex())
        if not m and e[3] is not None and (mem[:8] != b"\xee" * 8 or mem[12:] != b"\xee" * 4):
            m = "wrote around its result: %s" % mem.hex()
        er = e[2]
    else:
        m = near(got, e[1], e[2] * (1.1 if dos else 1), e[3] + (abs(f32.to_float(it["a"])) * 2e-16 if dos else 0))
        if not m and len(e) > 6 and (got & 0x80000000) != e[6]:
            m = "%s has the wrong sign" % hx(got)
        if not m and len(e) <= 5 and not dos and got & 0x7fffffff == 0 and e[1] != 0 and got >> 31 != (e[1] < 0) and f not in ("sinh",):
            m = "%s has the wrong sign" % hx(got)
        er = e[4]
    if not m and er is not None and o.i(hd[1]) != er:
        m = "errno %d, expected %d" % (o.i(hd[1]), er)
    return m


def kind(it):
    return base(it)


def show(it):
    b = it.get("b")
    return "%s(%s%s)" % (it["f"], hx(it["a"]), "" if b is None else ", %d" % (b - (1 << 32) if b >> 31 else b) if base(it) == "ldexp" else ", " + hx(b))


libcheck.bind(globals())
