"""B09: calendar functions."""
import calendar, datetime, struct, time
from vlib import libcheck, f32, targets
from vlib.srv import A, R

ID = "B09"
QUICK = (500, 30)
THOROUGH = (12000, 600)
TECHNIQUE = "property-based testing: generated times and broken-down times against the proleptic Gregorian calendar; round trips"
LEVEL_NOTE = "gmtime/localtime over the 32-bit range with month, year and leap boundaries, mktime over all valid dates of 1970-2105 and invalid fields, asctime/ctime text, strftime with random format strings, every conversion, week-number edge dates and exact buffer limits, difftime over all pairs; Linux, Windows, macOS and DPMI executables (under a stand-in loader), with huge/unreal/small DOS samples."
RULE = "Each evaluation is one call with its round trip. Non-trivial: all; distinct by function and arguments."
ASSUMPTIONS = ["local time is UTC (the time zone the kernel reports is UTC)", "mktime fails on out-of-range fields (stated in the library's source), times from 2106 on may be unconvertible", "%z and %Z produce nothing"]
PER_CASE = 100
DOS_EVERY = 45
END = 49673 * 86400
EPOCH = datetime.datetime(1970, 1, 1)
DIR = "aAbBcCdDeFgGhHIjmMnprRStTuUVwWxXyY%"


def rtime(rng):
    r = rng.random()
    if r < 0.25:
        return rng.randrange(1 << 32)
    y, m = rng.randrange(1970, 2106), rng.randrange(1, 13)
    if r < 0.5:
        y = rng.choice([1970, 1972, 1999, 2000, 2001, 2004, 2038, 2096, 2099, 2100, 2101, 2104, 2105])
    d = rng.choice([1, calendar.monthrange(y, m)[1], rng.randrange(1, 29)])
    if r < 0.4:
        m, d = rng.choice([(1, 1), (12, 31), (2, 28), (3, 1), (1, 4), (12, 28), (12, 29)])
    t = calendar.timegm((y, m, d, 0, 0, 0))
    return (t + rng.choice([0, -1, 1, 86399, rng.randrange(86400), rng.randrange(86400)])) & 0xffffffff


def rdate(rng, lo, hi):
    y = rng.randrange(lo, hi + 1)
    if rng.random() < 0.3:
        y = rng.choice([x for x in (1970, 1996, 1999, 2000, 2001, 2004, 2096, 2100, 2101, 2105) if lo <= x <= hi])
    m = rng.choice([1, 2, 2, 12, rng.randrange(1, 13)])
    n = calendar.monthrange(y, m)[1]
    return y, m, rng.choice([1, n, rng.randrange(1, n + 1), rng.randrange(1, n + 1), min(7, n), n - 2])


def rfmt(rng):
    o = []
    for _ in range(rng.choice([1, 1, 2, 4, 8])):
        r = rng.random()
        if r < 0.15:
            o.append(rng.choice([" ", "x", "-", "week ", "1", "\t"]))
        elif r < 0.25:
            c, d = rng.choice([("E", "cCxXyY"), ("O", "deHImMSuUVwWy")])
            o.append("%" + c + rng.choice(d))
        else:
            o.append("%" + rng.choice(DIR))
    return "".join(o)


def gen_item(rng, b16):
    k = rng.choice(["asctime", "strftime", "strftime"] if b16 else ["now", "gm", "gm", "local", "mk", "mk", "asctime", "ctime", "strftime", "strftime", "strftime", "diff"])
    if k == "now":
        return {"k": k, "p": rng.randrange(2)}
    if k in ("gm", "local", "ctime"):
        t = rtime(rng)
        return {"k": k, "t": t if k != "ctime" or t < END else t % END}
    if k == "diff":
        a = rtime(rng)
        return {"k": k, "a": a, "b": rng.choice([a, rtime(rng), (a + rng.randrange(-3, 4)) & 0xffffffff, 0])}
    lo, hi = (1970, 2105) if k == "mk" else (1900, 9999) if k == "asctime" else (1000, 9999)
    y, m, d = rdate(rng, lo, hi)
    f = [rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 11, 12, 13, 23, rng.randrange(24)]), d, m - 1, y - 1900]
    if k == "mk":
        if rng.random() < 0.15:
            i = rng.randrange(6)
            f[i] = rng.choice([-1, -5, 60, 61, 24, 25, 32, 12, 13, 0, 69, 206, 1000])
        return {"k": k, "f": f, "junk": [rng.randrange(-5, 400), rng.randrange(-5, 400), rng.choice([0, -1])]}
    it = {"k": k, "f": f}
    if k == "strftime":
        if rng.random() < 0.1:
            f[0] = 60
        it["fmt"] = rfmt(rng)
        it["lim"] = rng.choice([None, None, 0, -1, 1, "z"])
    return it


def tm(f):
    d = datetime.date(f[5] + 1900, f[4] + 1, f[3])
    return list(f) + [(d.weekday() + 1) % 7, d.timetuple().tm_yday - 1, 0]


def pack(v, b16):
    return struct.pack("<9h" if b16 else "<9i", *v)


def ascii_(f):
    t = tm(f)
    return ("%s %s%3d %02d:%02d:%02d %d\n" % ("Sun Mon Tue Wed Thu Fri Sat".split()[t[6]], "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()[t[4]], t[3], t[2], t[1], t[0], t[5] + 1900)).encode() + b"\0"


def fields(t):
    d = EPOCH + datetime.timedelta(seconds=t)
    return [d.second, d.minute, d.hour, d.day, d.month - 1, d.year - 1900]


def two(n):
    return "%02d" % n


def ref_fmt(fmt, f):
    t = tm(f)
    d = datetime.date(t[5] + 1900, t[4] + 1, t[3])
    iso = d.isocalendar()
    A_, B_ = "Sunday Monday Tuesday Wednesday Thursday Friday Saturday".split(), "January February March April May June July August September October November December".split()
    o, i = [], 0
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c != "%":
            o.append(c)
            continue
        c = fmt[i]
        i += 1
        if c in "EO":
            c = fmt[i]
            i += 1
        y = t[5] + 1900
        v = {"a": A_[t[6]][:3], "A": A_[t[6]], "b": B_[t[4]][:3], "h": B_[t[4]][:3], "B": B_[t[4]], "C": two(y // 100), "d": two(t[3]), "e": "%2d" % t[3], "g": two(iso[0] % 100), "G": str(iso[0]), "V": two(iso[1]),
             "H": two(t[2]), "I": two(t[2] % 12 or 12), "j": "%03d" % (t[7] + 1), "m": two(t[4] + 1), "M": two(t[1]), "n": "\n", "p": "PM" if t[2] > 11 else "AM", "S": two(t[0]), "t": "\t", "u": str(t[6] or 7),
             "w": str(t[6]), "y": two(y % 100), "Y": str(y), "%": "%", "U": two((t[7] + 7 - t[6]) // 7), "W": two((t[7] + 7 - (t[6] - 1) % 7) // 7)}
        v["D"] = v["x"] = v["m"] + "/" + v["d"] + "/" + v["y"]
        v["T"] = v["X"] = v["H"] + ":" + v["M"] + ":" + v["S"]
        v["F"] = v["Y"] + "-" + v["m"] + "-" + v["d"]
        v["R"] = v["H"] + ":" + v["M"]
        v["r"] = v["I"] + ":" + v["M"] + ":" + v["S"] + " " + v["p"]
        v["c"] = v["a"] + " " + v["b"] + " " + v["e"] + " " + v["T"] + " " + v["Y"]
        o.append(v[c])
    return "".join(o).encode()


def limit(it):
    n = len(ref_fmt(it["fmt"], it["f"]))
    return {None: 200, 0: n, 1: n + 1, -1: max(0, n - 1), "z": 0}[it["lim"]]


def emit(it, s):
    b16 = s.mask == 0xffff
    k = it["k"]
    z = 18 if b16 else 36
    if k in ("gm", "local", "ctime"):
        s.w(0, struct.pack("<I", it["t"]))
        s.fill(64, 64, 0xEE)
        a = s.call({"gm": "gmtime", "local": "localtime", "ctime": "ctime"}[k], A(0), reg=1)
        n = 26 if k == "ctime" else z
        if k == "ctime" or it["t"] < END:
            s.call("memcpy", A(64), R(1), n)
        b = s.d(64, n)
        return (a, b, s.call("mktime", A(64)) if k == "local" and it["t"] < END else None)
    if k == "now":
        s.fill(64, 12, 0xEE)
        return (s.call("time", A(68) if it["p"] else 0), s.d(64, 12))
    if k == "diff":
        return (s.call("difftime", it["a"], it["b"]),)
    if k == "mk":
        s.w(64, pack(it["f"] + it["junk"], False))
        return (s.call("mktime", A(64)), s.d(64, 36))
    s.w(64, pack(tm(it["f"]), b16))
    if k == "asctime":
        a = s.call("asctime", A(64), reg=1)
        s.call("memcpy", A(200), R(1), 26)
        return (s.d(200, 26), s.d(64, z))
    s.w(200, it["fmt"].encode() + b"\0")
    s.fill(400, 400, 0xEE)
    return (s.call("strftime", A(400), limit(it), A(200), A(64)), s.d(400, 400), s.d(64, z))


def verify(it, hd, o):
    k = it["k"]
    b16 = o.mask == 0xffff
    if k == "now":
        t, b = o.u(hd[0]), o.d(hd[1])
        if b != b"\xee" * 4 + (struct.pack("<I", t) if it["p"] else b"\xee" * 4) + b"\xee" * 4:
            return "time() returned %d and stored %s" % (t, b[4:8].hex())
        if o.target in targets.HOSTED and o.now is not None and t != o.now or o.target == "linux" and abs(t - time.time()) > 7200:
            return "time() returned %d, the clock says %s" % (t, o.now if o.now is not None else time.time())
        return None
    if k in ("gm", "local"):
        t = it["t"]
        if t >= END:
            return None
        if not o.u(hd[0]):
            return "returned NULL"
        got = list(struct.unpack("<9i", o.d(hd[1])))
        want = tm(fields(t))
        if got != want:
            return "%s, expected %s" % (got, want)
        if hd[2] is not None and o.u(hd[2]) != t:
            return "mktime(localtime(%d)) is %d" % (t, o.u(hd[2]))
    elif k == "ctime":
        if o.d(hd[1]) != ascii_(fields(it["t"])):
            return "%r, expected %r" % (o.d(hd[1]), ascii_(fields(it["t"])))
    elif k == "diff":
        w = f32.rnd(f32.Fraction(it["a"] - it["b"]))
        if o.u(hd[0]) != w:
            return "%08x, expected %08x" % (o.u(hd[0]), w)
    elif k == "mk":
        f = it["f"]
        try:
            d = datetime.datetime(f[5] + 1900, f[4] + 1, f[3], f[2], f[1], f[0])
            ok = 1970 <= d.year <= 2105
        except ValueError:
            ok = False
        if not ok:
            if o.u(hd[0]) != 0xffffffff and not normalized(f, o.u(hd[0])):
                return "%d for fields out of range" % o.u(hd[0])
            return None
        w = int((d - EPOCH).total_seconds())
        if o.u(hd[0]) != w:
            return "%d, expected %d" % (o.u(hd[0]), w)
        got = list(struct.unpack("<9i", o.d(hd[1])))
        if got[:8] != tm(f)[:8]:
            return "fields %s afterwards, expected %s" % (got[:8], tm(f)[:8])
    elif k == "asctime":
        if o.d(hd[0]) != ascii_(it["f"]):
            return "%r, expected %r" % (o.d(hd[0]), ascii_(it["f"]))
    else:
        w = ref_fmt(it["fmt"], it["f"])
        lim = limit(it)
        n, b = o.u(hd[0]), o.d(hd[1])
        if len(w) + 1 > lim:
            if n:
                return "returned %d for a result that does not fit" % n
            if b[lim:] != b"\xee" * (400 - lim):
                return "wrote beyond the limit"
        else:
            if n != len(w) or b[:n + 1] != w + b"\0":
                return "%d %r, expected %d %r" % (n, b[:n + 1][:100], len(w), w[:100])
            if b[n + 1:] != b"\xee" * (399 - n):
                return "wrote beyond the end"
    if k in ("asctime", "strftime") and o.d(hd[-1]) != pack(tm(it["f"]), b16):
        return "changed its argument"
    return None


def normalized(f, t):
    """C's normalization of out-of-range fields is accepted, too."""
    y, m = f[5] + 1900 + f[4] // 12, f[4] % 12
    try:
        d = datetime.datetime(y, m + 1, 1) + datetime.timedelta(days=f[3] - 1, hours=f[2], minutes=f[1], seconds=f[0])
    except (ValueError, OverflowError):
        return False
    return (d - EPOCH).total_seconds() == t


def kind(it):
    return it["k"]


def simpler(it):
    if "fmt" in it:
        f = it["fmt"]
        for i in range(len(f)):
            for n in (3, 2, 1):
                c = {**it, "fmt": f[:i] + f[i + n:]}
                try:
                    ref_fmt(c["fmt"], it["f"])
                    if c["fmt"] and not c["fmt"].endswith("%"):
                        yield c
                except (KeyError, IndexError):
                    pass


def gen(rng, idx, tier):
    import sys
    t = libcheck.pick_target(rng, idx, DOS_EVERY, libcheck.DOS, targets.HOSTED)
    d = libcheck.gen(rng, sys.modules[__name__], PER_CASE, t)
    if t in targets.HOSTED:
        d["now"] = max(rtime(rng) % END, 315532800)      # what the operating system's clock says
    return d


def exec_args(data):
    return {"env": {"OSHOST_TIME": str(data["now"])}} if "now" in data else {}


libcheck.bind(globals())
