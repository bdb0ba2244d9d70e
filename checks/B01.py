"""B01: printf family, integers, characters and strings, against a model of the standard's conversions."""
from vlib import libcheck
from vlib.srv import A, R

ID = "B01"
QUICK = (500, 40)
THOROUGH = (12000, 700)
TECHNIQUE = "property-based testing: generated formats and arguments, against an executable model of the standard's conversions"
LEVEL_NOTE = "Random formats (all flags, widths, precisions, *, length modifiers; d i u o x X c s p n %) through sprintf, snprintf, their v-forms and fprintf; result, bytes beyond the buffer and return value compared; Linux, Windows, macOS and DPMI executables (under a stand-in loader), with huge/unreal/small DOS samples."
RULE = "Each evaluation is one call with one format. Non-trivial: the format has a conversion; distinct by format and arguments."
ASSUMPTIONS = ["flag and conversion combinations C leaves undefined are not generated", "%p is read back as a hexadecimal number"]
PER_CASE = 120
EDGE = [0, 1, -1, 7, 8, 9, 10, 15, 16, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, -128, -129, -32768, -32769, 2147483647, -2147483648, 123456789, -123456789, 0xdeadbeef]
LIT = ["", "a", "xyz ", "%%", "[", "]", "  ", "100%%", "\n", "\x01\xff", "%%%%d"]


def gen_spec(rng, b16):
    c = rng.choice("diuoxXdiuoxXcsspn")
    fl = ""
    if c in "di":
        pool = "-+ 0"
    elif c == "u":
        pool = "-0"
    elif c in "oxX":
        pool = "-#0"
    elif c in "cs":
        pool = "-"
    else:
        pool = ""
    if pool:
        fl = "".join(rng.choice(pool) for _ in range(rng.choice([0, 0, 1, 1, 2, 3])))
    w = pr = None
    if c in "p":
        pass
    elif c != "n":
        r = rng.random()
        w = None if r < 0.45 else rng.choice([1, 2, 3, 5, 8, 10, 12, 20, 37]) if r < 0.85 else ["*", rng.choice([0, 1, 5, 11, -1, -7, -20, 30])]
        if c not in "c":
            r = rng.random()
            pr = None if r < 0.5 else rng.choice(["", 0, 1, 2, 3, 5, 8, 10, 11, 12, 15, 25]) if r < 0.85 else ["*", rng.choice([0, 1, 4, 9, 13, -1, -5])]
    lm = ""
    if c in "diuoxX" or c == "n":
        lm = rng.choice(["", "", "", "h", "hh"] + ([] if b16 else ["l", "l"]) + (["z", "j", "t"]))
    if c == "s":
        v = [rng.choice([65, 98, 32, 37, 200, 10]) for _ in range(rng.choice([0, 1, 3, 7, 12, 20]))]
    elif c == "c":
        v = rng.choice([65, 98, 0, 37, 255, 10, 321])
    elif c == "n":
        v = 0
    else:
        v = rng.choice(EDGE) if rng.random() < 0.6 else rng.getrandbits(32) >> rng.randrange(32)
    return [fl, w, pr, lm, c, v]


def gen_item(rng, b16):
    parts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
        if rng.random() < 0.5:
            parts.append(rng.choice(LIT))
        parts.append(gen_spec(rng, b16))
    if rng.random() < 0.4:
        parts.append(rng.choice(LIT))
    while nargs(parts) > 8:
        parts.pop()
    fn = rng.choice(["sprintf", "va_vsprintf", "snprintf", "snprintf", "va_vsnprintf"])
    return {"p": parts, "fn": fn, "lim": rng.choice([0, 1, 2, 5, 10, 20, 40, 1000]), "b16": b16}


def nargs(parts):
    return sum(1 + isinstance(p[1], list) + isinstance(p[2], list) for p in parts if not isinstance(p, str))


def fmt_of(parts):
    o = ""
    for p in parts:
        if isinstance(p, str):
            o += p
        else:
            fl, w, pr, lm, c, v = p
            o += "%" + fl + ("" if w is None else "*" if isinstance(w, list) else str(w)) + ("" if pr is None else ".*" if isinstance(pr, list) else "." + str(pr)) + lm + c
    return o.encode("latin-1")


def conv(p, b16, done):
    fl, w, pr, lm, c, v = p
    left, plus, space, alt, zero = ("-" in fl), ("+" in fl), (" " in fl), ("#" in fl), ("0" in fl)
    if isinstance(w, list):
        w = w[1]
    if w is not None and w < 0:
        left, w = True, -w
    w = w or 0
    if isinstance(pr, list):
        pr = pr[1] if pr[1] >= 0 else None
    elif pr == "":
        pr = 0
    pad = lambda t: t.ljust(w) if left else t.rjust(w)
    if c == "c":
        return pad(chr(v & 255))
    if c == "s":
        t = "".join(map(chr, v))
        return pad(t if pr is None else t[:pr])
    bits = 8 if lm == "hh" else 16 if lm == "h" or b16 else 32
    u = v & ((1 << bits) - 1)
    if c in "di":
        x = u - (1 << bits) if u >> (bits - 1) else u
        sign = "-" if x < 0 else "+" if plus else " " if space else ""
        d = str(abs(x))
    else:
        x, sign = u, ""
        d = {"u": "%d", "o": "%o", "x": "%x", "X": "%X"}[c] % u
    if pr is not None:
        d = "" if x == 0 and pr == 0 else d.rjust(pr, "0")
    if alt and c == "o" and d[:1] != "0":
        d = "0" + d
    pre = ("0" + c) if alt and c in "xX" and x else ""
    if zero and not left and pr is None:
        d = d.rjust(w - len(sign) - len(pre), "0")
    return pad(sign + pre + d)


def emit(it, s):
    b16 = it["b16"]
    ar = 3600 if b16 else 60000
    off = 2048          # strings and %n targets
    s.fill(0, 1400, 0xA5)
    s.w(1500, fmt_of(it["p"]) + b"\0")
    s.fill(off, 400, 0xEE)
    a, ns = [], []
    for k, p in enumerate(it["p"]):
        if isinstance(p, str):
            continue
        fl, w, pr, lm, c, v = p
        for x in (w, pr):
            if isinstance(x, list):
                a.append(x[1])
        if c == "s":
            s.w(off, bytes(v) + b"\0")
            a.append(A(off))
            off += len(v) + 2
        elif c == "n":
            off = (off + 3) & ~3
            a.append(A(off))
            ns.append((off - 2048, lm))
            off += 4
        else:
            a.append(v)
    fn = it["fn"]
    if "snprintf" in fn:
        r = s.call(fn, A(100), it["lim"], A(1500), *a)
    else:
        r = s.call(fn, A(100), A(1500), *a)
    return (r, s.d(0, 1400), s.d(2048, 400), ns)


def verify(it, hd, o):
    r, d, d2, ns = hd
    want, nval, plen = "", [], None
    pieces = []
    for p in it["p"]:
        if isinstance(p, str):
            want += p.replace("%%", "%")
        elif p[4] == "n":
            nval.append(len(want))
        elif p[4] == "p":
            # text of a pointer is the implementation's choice: read it back
            img = o.d(d)
            q = 100 + len(want)
            lim = it["lim"] if "snprintf" in it["fn"] else 10000
            t = ""
            while len(t) < 12 and chr(img[q + len(t)]) in "0123456789abcdefABCDEFx" and len(t) < 16:
                t += chr(img[q + len(t)])
            full = hex(p[5] & (0xffff if it["b16"] else 0xffffffff))[2:]
            if len(want) + len(full) + 3 < lim:
                if not t or not (full.lower() in t.lower()):
                    return "%%p of %x printed %r" % (p[5], t)
                i = t.lower().find(full.lower())
                want += t[:i + len(full)]
            else:
                want += full
        else:
            want += conv(p, it["b16"], len(want))
    w = want.encode("latin-1")
    if o.i(r) != len(w):
        return "%r: returned %d, expected %d (%r)" % (fmt_of(it["p"]), o.i(r), len(w), w)
    img = o.d(d)
    if "snprintf" in it["fn"]:
        n = it["lim"]
        body = b"" if n == 0 else w[:n - 1] + b"\0"
    else:
        body = w + b"\0"
    exp = b"\xa5" * 100 + body + b"\xa5" * (1300 - len(body))
    if img != exp:
        return "%r (limit %s): wrote %r, expected %r" % (fmt_of(it["p"]), it["lim"], img[100:140 + len(body)], body)
    for (off, lm), v in zip(ns, nval):
        size = 1 if lm == "hh" else 2 if lm == "h" or it["b16"] else 4
        got = o.d(d2)[off:off + 4]
        if got != (v & ((1 << 8 * size) - 1)).to_bytes(size, "little") + b"\xee" * (4 - size):
            return "%r: %%%sn stored %s, expected %d" % (fmt_of(it["p"]), lm, got.hex(), v)
    return None


def nontrivial(it):
    return any(not isinstance(p, str) for p in it["p"])


def kind(it):
    return "".join(sorted(set(p[4] for p in it["p"] if not isinstance(p, str))))[:1] + "/" + it["fn"]


def show(it):
    return "%s(%r, %s)" % (it["fn"], fmt_of(it["p"]), [p[5] for p in it["p"] if not isinstance(p, str)])


def simpler(it):
    yield from libcheck.simpler_list(it, "p")
    if it["fn"] != "sprintf":
        yield {**it, "fn": "sprintf"}


libcheck.bind(globals())
