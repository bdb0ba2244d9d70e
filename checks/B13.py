"""B13: integer utility functions."""
import struct
from vlib import libcheck
from vlib.srv import A

ID = "B13"
QUICK = (500, 25)
THOROUGH = (15000, 600)
TECHNIQUE = "property-based testing: generated arguments and call sequences against exact integer arithmetic and a model of the generator"
LEVEL_NOTE = "div, ldiv, abs, labs over boundary and random pairs; rand/srand sequences interleaved with reseeding (exact sequence, range and repetition); the helpers for 32-bit arithmetic in halves over carry and sign boundaries, with aliased operands; Linux, Windows, macOS and DPMI executables (under a stand-in loader), with huge/unreal/small DOS samples."
RULE = "Each evaluation is one call or one random-number sequence. Non-trivial: all; distinct by function and arguments."
ASSUMPTIONS = ["INT_MIN / -1 is undefined and not generated", "the random sequence is only required to repeat for equal seeds, to stay in range and not to be constant"]
PER_CASE = 120
DOS_EVERY = 40


def val(rng, bits):
    r = rng.random()
    h = bits // 2
    if r < 0.3:
        return rng.getrandbits(bits)
    if r < 0.6:
        return (rng.choice([0, 1, 1 << bits - 1, (1 << bits) - 1, 1 << h, (1 << h) - 1, 0xffff, 0x10000, 0x8000, 0x7fff, 1 << bits - 2]) + rng.randrange(-2, 3)) & ((1 << bits) - 1)
    if r < 0.8:
        return rng.randrange(200) if rng.random() < 0.5 else -rng.randrange(200) & ((1 << bits) - 1)
    return rng.getrandbits(rng.randrange(1, bits + 1))


def sg(v, bits):
    return v - (1 << bits) if v >> bits - 1 else v


def gen_item(rng, b16):
    bits = 16 if b16 else 32
    k = rng.choice(["div", "div", "abs", "rand", "lng", "lng", "lng", "lngc", "lngc"] + ([] if b16 else ["ldiv", "labs"]))
    if k in ("div", "ldiv"):
        a, b = val(rng, bits), val(rng, bits) or 1
        if rng.random() < 0.2:
            a = (b * rng.randrange(-50, 50) + rng.randrange(-1, 2)) & ((1 << bits) - 1)
        if sg(b, bits) == -1 and a == 1 << bits - 1:
            b = 1
        return {"k": k, "a": a, "b": b}
    if k in ("abs", "labs"):
        a = val(rng, bits)
        return {"k": k, "a": a if a != 1 << bits - 1 else a - 1}
    if k == "rand":
        return {"k": k, "seeds": [rng.choice([0, 1, val(rng, bits)]) for _ in range(rng.randrange(1, 4))], "n": rng.choice([1, 3, 20]), "long": rng.choice([0, 50, 1000])}
    if k == "lngc":
        f = rng.choice(["__lngFromUnsigned", "__lngFromSigned", "__lngToUnsigned", "__lngToSigned", "__lngLessThan0"])
        return {"k": k, "f": f, "a": val(rng, bits if "From" in f else 32)}
    a, b = val(rng, 32), val(rng, 32)
    r = rng.random()
    if r < 0.15:
        b = a
    elif r < 0.3:
        b = a ^ 1 << rng.randrange(32)
    elif r < 0.4:
        b = (a & 0xffff0000) | val(rng, 16)
    elif r < 0.5:
        b = (a & 0xffff) | val(rng, 16) << 16
    return {"k": "lng", "f": rng.choice(["__lngAdd", "__lngSub", "__lngEq", "__lngUnsignedLess", "__lngSignedLess"]), "a": a, "b": b, "alias": rng.random() < 0.08}


def emit(it, s):
    k = it["k"]
    b16 = s.mask == 0xffff
    if k in ("div", "ldiv"):
        s.fill(0, 32, 0xEE)
        s.call("w_" + k, it["a"], it["b"], A(8))
        return (s.d(0, 24 if b16 else 32),)
    if k in ("abs", "labs"):
        return (s.call(k, it["a"]),)
    if k == "rand":
        h = [s.call("randmax")]
        for sd in it["seeds"] + it["seeds"]:
            s.call("srand", sd)
            h.append(([s.call("c_rand") for _ in range(it["n"])], s.call("sumrand", it["long"])))
        return h
    s.fill(0, 32, 0xEE)
    if k == "lngc":
        if "From" in it["f"]:
            c = s.call(it["f"], A(8), it["a"])
        else:
            s.w(8, struct.pack("<I", it["a"]))
            c = s.call(it["f"], A(8))
        return (c, s.d(0, 32))
    s.w(8, struct.pack("<I", it["a"]))
    s.w(16, struct.pack("<I", it["b"]))
    c = s.call(it["f"], A(8), A(8) if it["alias"] else A(16))
    return (c, s.d(0, 32))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def verify(it, hd, o):
    k = it["k"]
    b16 = o.mask == 0xffff
    bits, m = (16, 0xffff) if b16 else (32, 0xffffffff)
    fm = "<H" if b16 else "<I"
    if k in ("div", "ldiv"):
        a, b = sg(it["a"], bits), sg(it["b"], bits)
        q = tdiv(a, b)
        w = struct.pack(fm, q & m) + struct.pack(fm, (a - q * b) & m)
        w = b"\xee" * 8 + w
        w += b"\xee" * (len(o.d(hd[0])) - len(w))
        if o.d(hd[0]) != w:
            return "memory %s, expected %s" % (o.d(hd[0]).hex(), w.hex())
    elif k in ("abs", "labs"):
        w = abs(sg(it["a"], bits))
        if o.u(hd[0]) != w:
            return "%d, expected %d" % (o.i(hd[0]), w)
    elif k == "rand":
        mx = o.u(hd[0])
        if mx < 32767 or mx > m >> 1:
            return "RAND_MAX is %d" % mx
        n = len(it["seeds"])
        seq = []
        for rs, sm in hd[1:]:
            v = [o.i(x) for x in rs]
            if any(x < 0 or x > mx for x in v):
                return "rand() out of range: %s" % v
            if o.u(sm) == m and it["long"]:
                return "rand() out of range in a long sequence"
            if len(v) >= 20 and len(set(v)) < 10:
                return "rand() hardly varies: %s" % v
            seq.append((v, o.u(sm)))
        for i in range(n):
            if seq[i] != seq[n + i]:
                return "seed %d gave %s first, then %s" % (it["seeds"][i], seq[i], seq[n + i])
    else:
        a = it["a"]
        b = a if it.get("alias") else it.get("b")
        f = it["f"]
        ret, mem = None, a
        if f == "__lngFromUnsigned":
            mem = a
        elif f == "__lngFromSigned":
            mem = sg(a, bits) & 0xffffffff
        elif f == "__lngToUnsigned" or f == "__lngToSigned":
            ret = a & m
        elif f == "__lngLessThan0":
            ret = a >> 31
        elif f == "__lngAdd":
            mem = (a + b) & 0xffffffff
        elif f == "__lngSub":
            mem = (a - b) & 0xffffffff
        elif f == "__lngEq":
            ret = int(a == b)
        elif f == "__lngUnsignedLess":
            ret = int(a < b)
        else:
            ret = int(sg(a, 32) < sg(b, 32))
        if ret is not None:
            g = o.u(hd[0])
            if (bool(g) != bool(ret)) if "To" not in f else g != ret:
                return "returned %x, expected %x" % (g, ret)
        w = b"\xee" * 8 + struct.pack("<I", mem) + b"\xee" * 4
        if k == "lng":
            w += struct.pack("<I", it["b"])
        w += b"\xee" * (32 - len(w))
        if o.d(hd[1]) != w:
            return "memory %s, expected %s" % (o.d(hd[1]).hex(), w.hex())
    return None


def kind(it):
    return it.get("f") or it["k"]


libcheck.bind(globals())
