"""B08: qsort and bsearch."""
import struct
from vlib import libcheck
from vlib.srv import A, FP

ID = "B08"
QUICK = (500, 30)
THOROUGH = (20000, 600)
TECHNIQUE = "property-based testing: generated arrays and orders; sortedness, permutation, memory-neighbourhood and search invariants"
LEVEL_NOTE = "Arrays of 0 to 3000 elements of 1 to 40 bytes, random, sorted, reversed, constant, few-valued, organ-pipe and sawtooth; byte, word, signed, descending, masked and constant orders; comparison arguments checked to be elements; Linux, Windows, macOS and DPMI executables (under a stand-in loader), with small/huge/unreal DOS samples."
RULE = "Each evaluation is one qsort followed by up to 6 bsearch calls. Non-trivial: at least 2 elements; distinct by contents, element size and order."
ASSUMPTIONS = []
PER_CASE = 25
DOS_EVERY = 40
ORD = {"cmp1": (1, lambda e: e[0]), "cmp1r": (1, lambda e: -e[0]), "cmp2": (2, lambda e: e[0] | e[1] << 8), "cmp4": (4, lambda e: struct.unpack("<i", e[:4])[0]),
       "cmpm": (1, lambda e: e[0] & 15), "cmp0": (1, lambda e: 0), "cmpc": (1, lambda e: (e[0], e[1] if len(e) > 1 else 0))}


def gen_item(rng, b16):
    c = rng.choice(list(ORD))
    if c == "cmp4" and b16:
        c = "cmp2"
    m = ORD[c][0]
    es = rng.choice([m, m, 4, 8, rng.randrange(m, 41), 3, 5, 16, 12])
    es = max(es, m)
    lim = (1500 if b16 else 20000) // es
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, rng.randrange(60), rng.randrange(60), rng.randrange(300), rng.randrange(3000)])
    n = min(n, lim)
    sh = rng.choice(["rand", "rand", "sorted", "rev", "const", "few", "pipe", "saw", "near", "killer"])
    return {"c": c, "es": es, "n": n, "sh": sh, "seed": rng.randrange(1 << 30)}


def data(it):
    import random
    r = random.Random(it["seed"])
    n, es, c = it["n"], it["es"], it["c"]
    f = ORD[c][1]
    e = [r.randbytes(es) for _ in range(n)]
    sh = it["sh"]
    if sh == "few":
        p = [r.randbytes(es) for _ in range(3)]
        e = [r.choice(p) for _ in range(n)]
    elif sh == "const":
        e = [e[0]] * n if n else e
    elif sh in ("sorted", "rev", "pipe", "saw", "near", "killer"):
        e.sort(key=f)
        if sh == "rev":
            e.reverse()
        elif sh == "pipe":
            e = e[::2] + e[1::2][::-1]
        elif sh == "saw":
            e = e[::3] + e[1::3] + e[2::3]
        elif sh == "near":
            for _ in range(3):
                if n > 1:
                    i, j = r.randrange(n), r.randrange(n)
                    e[i], e[j] = e[j], e[i]
        elif sh == "killer" and n > 3:     # median-of-three killer
            k = n // 2
            o = e[:]
            for i in range(k):
                e[2 * i] = o[i] if i % 2 == 0 else o[k + i - 1]
                e[2 * i + 1] = o[k + i]
    keys = [e[r.randrange(n)] if n and r.random() < 0.6 else r.randbytes(es) for _ in range(6)]
    return e, keys


def emit(it, s):
    e, keys = data(it)
    b16 = s.mask == 0xffff
    base, key, g = (1024, 64, 48) if b16 else (4096, 64, 64)
    b = b"".join(e)
    s.fill(base - g, g, 0xC3)
    for i in range(0, len(b), 60000):
        s.w(base + i, b[i:i + 60000])
    s.fill(base + len(b), g, 0xC3)
    s.call("cset", A(base), it["n"], it["es"], 0)
    q = s.call("qsort", A(base), it["n"], it["es"], FP(it["c"]))
    bad = s.call("cbadget")
    d = s.d(base - g, len(b) + 2 * g)
    fs = []
    for k in keys:
        s.w(key, k)
        s.call("cset", A(base), it["n"], it["es"], A(key))
        fs.append((k, s.call("bsearch", A(key), A(base), it["n"], it["es"], FP(it["c"])), s.call("cbadget")))
    d2 = s.d(base - g, len(b) + 2 * g)
    return bad, d, fs, d2, base, g


def verify(it, hd, o):
    bad, d, fs, d2, base, g = hd
    e, _ = data(it)
    f = ORD[it["c"]][1]
    es = it["es"]
    b = o.d(d)
    if b[:g] != b"\xc3" * g or b[len(b) - g:] != b"\xc3" * g:
        return "qsort changed memory outside the array"
    r = [b[g + i * es:g + (i + 1) * es] for i in range(it["n"])]
    if sorted(r) != sorted(e):
        return "qsort did not leave a permutation of the elements"
    ks = [f(x) for x in r]
    for i in range(len(ks) - 1):
        if ks[i] > ks[i + 1]:
            return "qsort left elements %d and %d out of order" % (i, i + 1)
    if o.u(bad):
        return "qsort called the comparison with pointers that are not elements (%d times)" % o.u(bad)
    if o.d(d2) != b:
        return "bsearch changed memory"
    for k, x, bd in fs:
        p = o.off(x)
        have = f(k) in ks
        if it["c"] == "cmpc" and o.u(bd):
            return "bsearch called the comparison with something else than (key, element)"
        if not have:
            if p is not None:
                return "bsearch found an absent key"
            continue
        if p is None:
            return "bsearch did not find a present key"
        q = p - base
        if q < 0 or q >= it["n"] * es or q % es:
            return "bsearch returned offset %d, not an element" % q
        if f(r[q // es]) != f(k):
            return "bsearch returned an element that compares unequal"
    return None


def nontrivial(it):
    return it["n"] >= 2


def kind(it):
    return it["sh"]


def simpler(it):
    for n in sorted({0, 1, 2, 3, it["n"] // 2, it["n"] - 1}):
        if 0 <= n < it["n"]:
            yield {**it, "n": n}
    m = ORD[it["c"]][0]
    for es in {m, it["es"] - 1}:
        if m <= es < it["es"]:
            yield {**it, "es": es}


libcheck.bind(globals())
