"""B03: scanf family against a model of the standard's input conversions."""
from vlib import libcheck, scan, f32
from vlib.srv import A

ID = "B03"
QUICK = (500, 40)
THOROUGH = (12000, 700)
TECHNIQUE = "property-based testing: generated formats and inputs, against an executable model of the standard's input conversions"
LEVEL_NOTE = "Random directives (all integer, float, c s [ p n % conversions, widths, *, length modifiers, white space, literals) on matching, mutated and truncated inputs through sscanf and vsscanf; return value, every stored byte and every byte that must stay are compared; Linux, Windows, macOS and DPMI executables (under a stand-in loader), with huge/unreal DOS samples."
RULE = "Each evaluation is one call. Non-trivial: at least one conversion attempted on non-empty input; distinct by format and input."
ASSUMPTIONS = ["out-of-range integers, nan(...), hexadecimal floats and set ranges are not generated", "up to 110 significant digits"]
TARGETS = ("linux", "huge", "unreal", "win", "macos", "dosp")
PER_CASE = 120
SLOT = 48


def spec(rng):
    c = rng.choice("diuoxXdiuxefgsc[[pn%s")
    star = c not in "n%" and rng.random() < 0.12
    w = rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 8, 12, 20]) if c not in "n%" else 0
    lm = rng.choice(["", "", "h", "hh", "l", "z", "j", "t"]) if c in "diuoxXn" else rng.choice(["", "", "l", "L"]) if c in "efg" else ""
    st = ""
    if c == "[":
        st = rng.choice(["", "^"]) + rng.choice(["abc", "]ab", "0123456789", "xyz ", "\n", ",", "a", "\xff\x80a", "]"])
    if c in "s[" and w == 0:
        w = rng.choice([0, 20])
    return [int(star), w, lm, c, st]


def text_for(rng, p):
    star, w, lm, c, st = p
    ws = rng.choice(["", "", " ", "\n ", "\t", "  "]) if c not in "c[n" else ""
    if c in "diuoxXp":
        hi = {"hh": 127, "h": 32767}.get(lm, 2147483647)
        v = rng.choice([0, 1, 7, 8, 9, 10, 99, hi, rng.randrange(hi + 1)])
        t = {"d": "%d", "u": "%d", "o": "%o", "x": "%x", "X": "%X", "p": "%x", "i": rng.choice(["%d", "0%o", "0x%x", "0X%X"])}[c] % v
        if c in "xX" and rng.random() < 0.4:
            t = rng.choice(["0x", "0X"]) + t
        if rng.random() < 0.2:
            t = "000" [:rng.randrange(4)] + t
        if c != "p" and rng.random() < 0.4:
            t = rng.choice("+-") + t
    elif c in "efg":
        t = float_text(rng)
    elif c == "s":
        t = "".join(rng.choice("abc%0]-\xff") for _ in range(rng.choice([1, 3, 6, 15])))
    elif c == "c":
        t = "".join(rng.choice("ab \n0") for _ in range(w or 1))
    elif c == "[":
        s = st.lstrip("^") or "a"
        t = "".join(rng.choice(s + ("q7" if st[:1] == "^" else "")) if st[:1] != "^" else rng.choice("q7 -w") for _ in range(rng.choice([1, 2, 5, 12])))
    elif c == "%":
        t = "%"
    else:
        t = ""
    return ws + t


def float_text(rng):
    r = rng.random()
    if r < 0.12:
        t = rng.choice(["inf", "INF", "Infinity", "nan", "NAN", "iNfInItY", "infin", "in", "na"])
    else:
        d = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
        t = rng.choice([d(rng.randrange(1, 12)), d(1) + "." + d(rng.randrange(0, 10)), "." + d(rng.randrange(1, 12)), d(rng.randrange(1, 40)) + "." + d(rng.randrange(60)),
                        "0." + "0" * rng.randrange(50) + d(rng.randrange(1, 20))])
        if rng.random() < 0.5:
            t += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.choice([0, 1, 5, 10, 20, 30, 37, 38, 39, 44, 45, 46, 50, 100, 99999999999]))
        if rng.random() < 0.15:      # exactly half way between two floats
            b = rng.randrange(1, 0x7f7fffff)
            x = (f32.frac(b) + f32.frac(b + 1)) / 2
            if x.denominator < 10 ** 40 and x.numerator < 10 ** 45:
                k = 0
                while (x * 10 ** k).denominator != 1 and k < 120:
                    k += 1
                if k < 100:
                    t = "%de-%d" % (x * 10 ** k, k)
    if rng.random() < 0.4:
        t = rng.choice("+-") + t
    return t


def gen_item(rng, b16):
    while True:
        parts, inp = [], ""
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            r = rng.random()
            if r < 0.25:
                parts.append(rng.choice([" ", "\n", "  "]))
                inp += rng.choice(["", " ", "\n\n", " \t"])
            elif r < 0.45:
                t = rng.choice(["a", "x=", ",", "]", "-", "12"])
                parts.append(t)
                inp += t
            p = spec(rng)
            parts.append(p)
            inp += text_for(rng, p)
            if rng.random() < 0.3:
                inp += rng.choice([" ", ",", "\n", "z"])
        if rng.random() < 0.3:
            parts.append([0, 0, "", "n", ""])
        r = rng.random()
        if r < 0.2:
            inp = inp[:rng.randrange(len(inp) + 1)]
        elif r < 0.4 and inp:
            k = rng.randrange(len(inp))
            inp = inp[:k] + rng.choice(" \n-+0x9aeE.%,z") + inp[k + rng.randrange(2):]
        elif r < 0.5:
            inp += rng.choice([" ", "tail", "\n", "0", "x"])
        inp = inp.replace("\0", "1")
        # '^' and '-' inside sets have their own meanings; the generator only uses a leading '^'
        if sum(1 for p in parts if not isinstance(p, str)) > 9 or len(inp) > 400:
            continue
        try:
            r = scan.scanf(parts, inp.encode("latin-1"))
        except scan.UB:
            continue
        if any(s[0] == "b" and len(s[1]) > SLOT - 8 for s in r[1]):
            continue
        # what would be stored had the input been different must fit too
        return {"p": parts, "in": inp, "fn": rng.choice(["sscanf", "va_vsscanf"])}


def emit(it, s):
    s.w(0, it["in"].encode("latin-1") + b"\0")
    s.w(500, scan.fmt(it["p"]) + b"\0")
    s.fill(1000, 600, 0xCC)
    a = []
    k = 0
    for p in it["p"]:
        if not isinstance(p, str) and not p[0] and p[3] != "%":
            a.append(A(1000 + SLOT * k))
            k += 1
    r = s.call(it["fn"], A(0), A(500), *a)
    return (r, s.d(1000, 600))


def verify(it, hd, o):
    try:
        ret, stores, pos = scan.scanf(it["p"], it["in"].encode("latin-1"))
    except scan.UB:
        return None
    got = o.i(hd[0])
    d = bytearray(o.d(hd[1]))
    what = "sscanf(%r, %r)" % (it["in"], scan.fmt(it["p"]))
    if got != ret:
        return "%s returned %d, expected %d" % (what, got, ret)
    exp = bytearray(b"\xcc" * 600)
    for k, s in enumerate(stores):
        off = SLOT * k
        if s[0] == "any":
            exp[off:off + s[1]] = d[off:off + s[1]]
            continue
        if s[0] == "f" and s[1] == ("nan",):
            v = int.from_bytes(d[off:off + 4], "little")
            if not f32.is_nan(v):
                return "%s: conversion %d stored %08x, expected a NaN" % (what, k, v)
            exp[off:off + 4] = d[off:off + 4]
            continue
        b = (s[1] & 0xffffffff if s[0] == "f" else s[1] & ((1 << 8 * s[2]) - 1)).to_bytes(4 if s[0] == "f" else s[2], "little") if s[0] in "fi" else s[1]
        exp[off:off + len(b)] = b
    # a %s or %[ that fails half way may have stored part of the text: only complete stores are compared there
    nst = sum(1 for p in it["p"] if not isinstance(p, str) and not p[0] and p[3] != "%")
    if len(stores) < nst:
        k = len(stores)
        kinds = [p for p in it["p"] if not isinstance(p, str) and not p[0] and p[3] != "%"]
        if kinds[k][3] in "s[c":
            exp[SLOT * k:SLOT * k + SLOT] = d[SLOT * k:SLOT * k + SLOT]
    if d != exp:
        k = next(i for i in range(600) if d[i] != exp[i])
        return "%s: byte %d of conversion %d is %02x, expected %02x (stored %r, expected %r)" % (what, k % SLOT, k // SLOT, d[k], exp[k], bytes(d[k // SLOT * SLOT:][:16]), bytes(exp[k // SLOT * SLOT:][:16]))
    return None


def nontrivial(it):
    return bool(it["in"]) and any(not isinstance(p, str) for p in it["p"])


def kind(it):
    return "".join(sorted(set(p[3] for p in it["p"] if not isinstance(p, str))))[:2]


def show(it):
    return "%s(%r, %r)" % (it["fn"], it["in"], scan.fmt(it["p"]))


def simpler(it):
    for c in libcheck.simpler_list(it, "p"):
        yield c
    n = len(it["in"])
    for i in range(n):
        yield {**it, "in": it["in"][:i] + it["in"][i + 1:]}


libcheck.bind(globals())
