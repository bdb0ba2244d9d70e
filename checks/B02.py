"""B02: printf of floats against Python's correctly rounded formatting."""
from vlib import libcheck, f32
from vlib.srv import A

ID = "B02"
QUICK = (400, 40)
THOROUGH = (12000, 700)
TECHNIQUE = "property-based testing: generated floats and formats, differential against Python's correctly rounded formatting"
LEVEL_NOTE = "Random floats (all exponents, denormals, infinities, NaNs, ties) x flags x width x precision x e E f F g G; every character and the return value compared; Linux, Windows, macOS and DPMI executables (under a stand-in loader), with huge/unreal DOS samples."
RULE = "Each evaluation is one conversion. Non-trivial: finite non-zero value; distinct by value and format."
ASSUMPTIONS = ["round to nearest even", "%a is not offered by the library"]
TARGETS = ("linux", "huge", "unreal", "win", "macos", "dosp")
PER_CASE = 150


def gen_item(rng, b16):
    fl = "".join(rng.choice("-+ 0#") for _ in range(rng.choice([0, 0, 1, 1, 2, 3])))
    w = None if rng.random() < 0.5 else rng.choice([1, 5, 8, 10, 15, 20, 40, ["*", rng.choice([0, 9, -12, 30])]])
    pr = rng.choice([None, None, "", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 17, 25, 40, 60, 110, 149, 152, 160, ["*", rng.choice([0, 3, -1, 11])]])
    c = rng.choice("eEfFgG")
    v = f32.gen(rng)
    if rng.random() < 0.2:      # values at decimal rounding boundaries
        v = f32.rnd(f32.Fraction(rng.randrange(1, 20000) * 5, 10 ** rng.randrange(0, 7)) * 10 ** rng.randrange(0, 6))
    if rng.random() < 0.1:      # many nines
        v = f32.rnd(f32.Fraction(10 ** rng.randrange(1, 8) - 1, 10 ** rng.randrange(0, 10)) * rng.choice([1, -1]))
    lm = rng.choice(["", "", "", "L", "l"])
    return {"fl": fl, "w": w, "pr": pr, "c": c, "v": v, "lm": lm, "fn": rng.choice(["sprintf", "snprintf", "va_vsprintf"])}


def fmt(it, lm):
    w, pr = it["w"], it["pr"]
    return ("<%" + it["fl"] + ("" if w is None else "*" if isinstance(w, list) else str(w)) + ("" if pr is None else ".*" if isinstance(pr, list) else "." + str(pr)) + lm + it["c"] + ">%d").encode()


def ref(it):
    """Python's formatting of the exact value (correctly rounded, and unlike glibc's also right for %#g when rounding adds a digit)."""
    if f32.is_nan(it["v"]):
        return None, it["v"] >> 31
    a = [x[1] for x in (it["w"], it["pr"]) if isinstance(x, list)]
    f = fmt({**it, "w": it["w"], "pr": it["pr"]}, "").decode()
    x = f32.to_float(it["v"])
    if isinstance(it["pr"], list) and it["pr"][1] < 0:
        f = f.replace(".*", "")
        a = a[:-1]
    elif it["pr"] == "":
        f = f.replace("." + it["c"], ".0" + it["c"])
    if f32.is_inf(it["v"]):
        f = f[:2] + f[2:].replace("0", "", 1) if False else f
        fl = it["fl"].replace("0", "")
        f = "<%" + fl + f[2 + len(it["fl"]):]
    t = (f % (*a, x, 42)).encode()
    return t, len(t)


def emit(it, s):
    s.fill(0, 800, 0xA5)
    s.w(1000, fmt(it, it["lm"]) + b"\0")
    a = [x[1] for x in (it["w"], it["pr"]) if isinstance(x, list)] + [it["v"], 42]
    if it["fn"] == "snprintf":
        r = s.call("snprintf", A(0), 700, A(1000), *a)
    else:
        r = s.call(it["fn"], A(0), A(1000), *a)
    return (r, s.d(0, 800))


def verify(it, hd, o):
    t, n = ref(it)
    got = o.d(hd[1]).split(b"\0")[0]
    if t is None:
        w = got.strip(b"<>42 ").lstrip(b"+- ").lower() if got.startswith(b"<") and got.endswith(b">42") else got
        if w != b"nan":
            return "NaN printed %r" % got
        sign = b"-" in got
        if sign != bool(it["v"] >> 31):
            return "sign of NaN: %r" % got
        return None
    if got != t or o.i(hd[0]) != n:
        return "%r of %r (%08x): got %r (%d), expected %r (%d)" % (fmt(it, it["lm"]), f32.to_float(it["v"]), it["v"], got[:250], o.i(hd[0]), t[:250], n)
    return None


def nontrivial(it):
    return it["v"] & 0x7fffffff and not f32.is_nan(it["v"]) and not f32.is_inf(it["v"])


def kind(it):
    return it["c"]


def simpler(it):
    for k, v in (("fl", ""), ("w", None), ("lm", ""), ("fn", "sprintf")):
        if it[k] != v:
            yield {**it, k: v}


def show(it):
    return "%s %r (%08x)" % (fmt(it, it["lm"]).decode(), f32.to_float(it["v"]), it["v"])


libcheck.bind(globals())
