"""B04: strtol, strtoul, atoi, atol, strtof, strtod, atof against exact models."""
from vlib import libcheck, scan, f32
from vlib.srv import A

ID = "B04"
QUICK = (500, 40)
THOROUGH = (12000, 700)
TECHNIQUE = "property-based testing: generated numerals and near-numerals, against exact rational models"
LEVEL_NOTE = "Random numerals in all bases, with prefixes, signs, overflow boundaries, long mantissas, huge exponents, exact ties, truncated and mutated forms; value, end pointer and errno compared; Linux, Windows, macOS and DPMI executables (under a stand-in loader), with huge/unreal DOS samples."
RULE = "Each evaluation is one conversion. Non-trivial: the text is not empty; distinct by function, base and text."
ASSUMPTIONS = ["hexadecimal floats and nan(...) are outside the library's scope", "for mantissas over 112 significant digits the result of rounding the first 112 is accepted, too", "errno on underflow is not compared", "atoi/atol out of range are not generated"]
TARGETS = ("linux", "huge", "unreal", "win", "macos", "dosp")
PER_CASE = 150


def long_float(rng):
    d = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    n = rng.choice([110, 111, 112, 113, 114, 120, 150, 200])
    k = rng.randrange(0, n + 1)
    t = rng.choice([d(n), "1" + "0" * (n - 1), "0" * n + d(5)])
    t = t[:k] + rng.choice(["", "."]) + t[k:]
    return t + rng.choice(["", "e%d" % -rng.randrange(150), "e%d" % rng.randrange(40)])


def gen_item(rng, b16):
    from checks import B03
    while True:
        fn = rng.choice(["strtol", "strtoul", "strtol", "strtoul", "strtof", "strtod", "strtof", "atof", "atoi", "atol"])
        base = 10
        if fn in ("strtof", "strtod", "atof"):
            t = long_float(rng) if rng.random() < 0.1 else B03.float_text(rng)
        else:
            base = rng.choice([0, 0, 10, 10, 16, 8, 2, 36, rng.randrange(2, 37)]) if fn[:3] == "str" else 10
            b = base or rng.choice([8, 10, 16])
            v = rng.choice([0, 1, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 4294967297, rng.getrandbits(rng.randrange(1, 40)), 42949672950 + rng.randrange(10), 1 << rng.randrange(80)])
            if fn[0] == "a":
                v &= 0x7fffffff
            t = ""
            while v or not t:
                t = "0123456789abcdefghijklmnopqrstuvwxyz"[v % b] + t
                v //= b
            if rng.random() < 0.4:
                t = t.upper()
            if base in (0, 16) and b == 16 or rng.random() < 0.03:
                t = rng.choice(["0x", "0X", "0x", ""]) + t
            elif base in (0, 8) and b == 8:
                t = "0" + t
            if rng.random() < 0.1:
                t = "0" * rng.randrange(40) + t
            if rng.random() < 0.4:
                t = rng.choice("+-") + t
        t = rng.choice(["", "", "", " ", "\t\n ", "\v\f\r"]) + t
        r = rng.random()
        if r < 0.15:
            k = rng.randrange(len(t) + 1)
            t = t[:k] + rng.choice(" -+0x9zZgGeE.@/:[`{n") + t[k + rng.randrange(2):]
        elif r < 0.25:
            t = t[:rng.randrange(len(t) + 1)]
        elif r < 0.4:
            t += rng.choice(["x", " ", "9", "z", ".", "e", "e+", "-", "\xc1", "inity"])
        it = {"fn": fn, "base": base, "t": t, "ep": int(rng.random() < 0.9)}
        if len(t) > 600:
            continue
        try:
            ref(it)
        except scan.UB:
            continue
        return it


def ref(it):
    """-> (value bits or ('nan', sign) or set of accepted, end, erange or None if not compared)"""
    s = it["t"].encode("latin-1")
    p = 0
    while p < len(s) and s[p] in scan.SPACE:
        p += 1
    t = s[p:]
    if it["fn"] in ("strtof", "strtod", "atof"):
        i = 1 if t[:1] in (b"+", b"-") else 0
        neg = int(t[:1] == b"-")
        low = t[i:].lower()
        if low.startswith(b"infinity"):
            return {neg << 31 | f32.INF}, p + i + 8, 0
        if low.startswith(b"inf"):
            return {neg << 31 | f32.INF}, p + i + 3, 0
        if low.startswith(b"nan"):
            if low[3:4] == b"(":
                raise scan.UB
            return "nan", p + i + 3, 0
        if low[:2] == b"0x":
            raise scan.UB
        j = i
        while j < len(t) and 48 <= t[j] < 58:
            j += 1
        ip, fp = t[i:j], b""
        if t[j:j + 1] == b".":
            k = j + 1
            while k < len(t) and 48 <= t[k] < 58:
                k += 1
            fp = t[j + 1:k]
            if ip or fp:
                j = k
        if not ip and not fp:
            return {0}, 0, 0
        e = 0
        if t[j:j + 1] in (b"e", b"E"):
            k = j + 1
            if t[k:k + 1] in (b"+", b"-"):
                k += 1
            m = k
            while m < len(t) and 48 <= t[m] < 58:
                m += 1
            if m > k:
                e = int(t[j + 1:m])
                j = m
        v = dec(ip + fp, e - len(fp), neg)
        d = (ip + fp).lstrip(b"0")
        acc = {v, dec(d[:112], e - len(fp) + max(0, len(d) - 112), neg)}
        return acc, p + j, (34 if f32.is_inf(v) else 0 if v & 0x7fffffff > 0x800000 or int((ip + fp)) == 0 else None)
    n, v = None, None
    base = it["base"]
    i = 1 if t[:1] in (b"+", b"-") else 0
    neg = t[:1] == b"-"
    b = base
    j = i
    if base in (0, 16) and t[i:i + 1] == b"0" and t[i + 1:i + 2] in (b"x", b"X") and scan.digit(t[i + 2]) < 16 if len(t) > i + 2 else False:
        b, j = 16, i + 2
    elif base == 0:
        b = 8 if t[i:i + 1] == b"0" else 10
    k = j
    while k < len(t) and scan.digit(t[k]) < b:
        k += 1
    if k == j:
        return {0}, 0, 0
    v = int(t[j:k], b)
    if it["fn"] in ("strtol", "atoi", "atol"):
        lim = 1 << 31 if neg else (1 << 31) - 1
        if v > lim:
            if it["fn"][0] == "a":
                raise scan.UB
            return {0x80000000 if neg else 0x7fffffff}, p + k, 34
        return {(-v if neg else v) & 0xffffffff}, p + k, 0
    if v > 0xffffffff:
        return {0xffffffff}, p + k, 34
    return {(-v if neg else v) & 0xffffffff}, p + k, 0


def dec(d, x, neg):
    d = int(d or b"0")
    if d == 0:
        return neg << 31
    if len(str(d)) + x > 60:
        return neg << 31 | f32.INF
    if len(str(d)) + x < -80:
        return neg << 31
    return f32.rnd((-1 if neg else 1) * f32.Fraction(d) * f32.Fraction(10) ** x)


def emit(it, s):
    s.w(100, it["t"].encode("latin-1") + b"\0")
    s.fill(0, 8, 0xEE)
    s.call("set_errno", 0)
    ep = A(0) if it["ep"] else 0
    if it["fn"] in ("strtol", "strtoul"):
        r = s.call(it["fn"], A(100), ep, it["base"])
    elif it["fn"][0] == "s":
        r = s.call(it["fn"], A(100), ep)
    else:
        r = s.call(it["fn"], A(100))
    return (r, s.call("get_errno"), s.call("word_at", A(0)), s.d(4, 4))


def verify(it, hd, o):
    v, end, err = ref(it)
    r, e, w, g = hd
    got = o.v[r]
    if v == "nan":
        if not f32.is_nan(got):
            return "value %08x, expected a NaN" % got
    elif got not in v:
        return "value %08x, expected %s" % (got, ["%08x" % x for x in v])
    if it["fn"][0] == "s" and it["ep"]:
        if (o.v[w] - o.base - 100) & 0xffffffff != end:
            return "end pointer at %d, expected %d" % ((o.v[w] - o.base - 100) & 0xffffffff, end)
    elif o.v[w] != 0xeeeeeeee:
        return "wrote through a null end pointer"
    if it["fn"][0] == "s" and err is not None and o.v[e] != err and not (err and o.v[e]):
        return "errno %d, expected %s" % (o.v[e], "ERANGE" if err else 0)
    return None


def nontrivial(it):
    return bool(it["t"])


def kind(it):
    return it["fn"]


def show(it):
    return "%s(%r, base %d)" % (it["fn"], it["t"], it["base"])


def simpler(it):
    t = it["t"]
    n = len(t)
    size = n // 2
    while size:
        for i in range(0, n, size):
            c = {**it, "t": t[:i] + t[i + size:]}
            try:
                ref(c)
            except scan.UB:
                continue
            yield c
        size //= 2


libcheck.bind(globals())
