"""B06: heap histories."""
from vlib import libcheck, targets
from vlib.srv import R

ID = "B06"
QUICK = (900, 40)
THOROUGH = (30000, 700)
TECHNIQUE = "stateful property-based testing: generated malloc/calloc/realloc/free histories with an interval model"
LEVEL_NOTE = "Random histories over up to 14 live blocks, block contents filled and checked, sizes from 0 to over 2 GB, memory limits that make allocation fail; blocks checked for overlap, alignment, contents and reuse; Linux, Windows, macOS and DPMI executables (under a stand-in loader), with small/huge/unreal DOS samples."
RULE = "Each evaluation is one history of 5 to 80 operations. Non-trivial: it frees or reallocates at least one block while another is live; distinct by history."
ASSUMPTIONS = ["realloc(p, 0) is not generated (implementation-defined)", "the pointer of a failed realloc stays valid"]
PER_CASE = 3
DOS_EVERY = 50
SLOTS = 14


def size(rng, b16):
    r = rng.random()
    if r < 0.5:
        return rng.randrange(1, 40)
    if r < 0.8:
        return rng.choice([rng.randrange(1, 300), 16 * rng.randrange(1, 20) + rng.choice([-1, 0, 1]), rng.randrange(1, 1500)])
    if b16:
        return rng.choice([rng.randrange(1, 3000), 8000, 20000, 40000, 65535 - rng.randrange(40), 32768 + rng.randrange(-20, 20), 60000 + rng.randrange(5000)])
    if r < 0.95:
        return rng.choice([rng.randrange(1, 9000), rng.randrange(1, 9000), rng.randrange(30000)])
    return rng.choice([0x7fffffff, 0x80000000, 0x80000001, 0x7ffffff0 - rng.randrange(64), 0xffffffff - rng.randrange(70), 0xfffffff0, 0xffffffff - rng.randrange(40000),
                       rng.randrange(0x30000000, 0xffffffff), 1 << 20, 300000, 0x60000000])


def gen_item(rng, b16):
    ops, live = [], {}
    for _ in range(rng.choice([5, 12, 25, 40, 80])):
        k = rng.randrange(rng.choice([3, 6, SLOTS]))
        r = rng.random()
        if k in live and r < 0.5:
            ops.append(["f", k])
            del live[k]
        elif k in live:
            ops.append(["r", k, size(rng, b16)])
        elif r < 0.65:
            ops.append(["m", k, size(rng, b16)])
            live[k] = 1
        elif r < 0.85:
            a = rng.choice([1, 2, 4, 8, 12, 100, 0xffff, 0x10000, 3])
            b = rng.choice([1, 1, 3, 10, 17, 64, 200, 0x10000, 0x10001, 0x8000, 0])
            if rng.random() < 0.5:
                a, b = b, a
            if b16:
                a, b = a & 0xffff or 1, b & 0xffff
            ops.append(["c", k, a, b])
            live[k] = 1
        elif r < 0.93:
            ops.append(["r0", k, size(rng, b16)])     # realloc of a null pointer
            live[k] = 1
        else:
            ops.append(["m", k, 0])
            live[k] = 1
    return {"ops": ops, "v": rng.randrange(256)}


def emit(it, s):
    h = []
    live = {}
    for n, op in enumerate(it["ops"]):
        k = op[1] + 1
        v = (it["v"] + 37 * n) & 255
        if op[0] == "f":
            h.append((s.call("chkp", R(k), live[k][0], live[k][1]), s.call("free", R(k))))
            del live[k]
            continue
        # size 0 for filling means unknown at generation time; the server sees a null pointer then
        if op[0] == "r" and k in live:
            old = live[k]
            a = s.call("realloc", R(k), op[2], reg=40)
            keep = min(old[0], op[2])
            c = s.call("chkp", R(40), min(keep, 40000), old[1])
            g = s.call("sel", R(40), R(k), reg=k)
            # contents when it failed stay the old ones; the smaller of both sizes is refilled in either case
            f = s.call("fillp", R(k), min(keep, 40000), v)
            live[k] = (min(keep, 40000), v)
            h.append((a, c, g))
        else:
            if op[0] == "c":
                a = s.call("calloc", op[2], op[3], reg=k)
                n1 = op[2] * op[3]
            elif op[0] == "r0" or op[0] == "r":
                a = s.call("realloc", 0, op[2], reg=k)
                n1 = op[2]
            else:
                a = s.call("malloc", op[2], reg=k)
                n1 = op[2]
            m = min(n1, 40000)
            z = s.call("chkz", R(k), m) if op[0] == "c" else None
            s.call("fillp", R(k), m, v)
            live[k] = (m, v)
            h.append((a, z))
        s.mark()
    end = []
    for k in sorted(live):
        end.append((s.call("chkp", R(k), *live[k]), k))
    for k in sorted(live):
        s.call("free", R(k))
    return h, end


def verify(it, hd, o):
    h, end = hd
    b16 = o.mask == 0xffff
    big = 0xffff if b16 else 0x20000000
    live = {}
    total = 0
    for n, (op, x) in enumerate(zip(it["ops"], h)):
        k = op[1] + 1
        w = "operation %d %s: " % (n, op)
        if op[0] == "f":
            if o.u(x[0]):
                return w + "byte %d of the block being freed had changed" % (o.u(x[0]) - 1)
            del live[k]
            continue
        p = o.u(x[0])
        need = op[2] * op[3] if op[0] == "c" else op[2]
        if op[0] == "r" and k in live:
            if o.u(x[1]) and live[k] and live[k][0]:
                return w + "realloc did not preserve byte %d" % (o.u(x[1]) - 1)
            if p:
                live[k] = None
            else:
                continue
        elif x[1] is not None and p and o.u(x[1]):
            return w + "calloc left byte %d non-zero" % (o.u(x[1]) - 1)
        if p == 0:
            lim = 9000 if o.rounds else 1000 if o.target in libcheck.DOS else 200000
            if need and need < lim and sum(b for a, b in live.values() if a) < lim and not o.limited:   # o.rounds: nothing is fragmented
                return w + "failed with %d bytes in use" % sum(b for a, b in live.values() if a)
            live[k] = (0, 0)
            continue
        if need >= big:
            return w + "returned %#x for %#x bytes" % (p, need)
        if p % 8:
            return w + "returned the misaligned pointer %#x" % p
        for j, q in live.items():
            if q and j != k and q[0] and p < q[0] + max(q[1], 1) and q[0] < p + max(need, 1):
                return w + "block %#x+%d overlaps the live block %#x+%d" % (p, need, q[0], q[1])
        live[k] = (p, need)
    for c, k in end:
        if o.u(c):
            return "byte %d of the live block in slot %d had changed at the end" % (o.u(c) - 1, k - 1)
    return None


def finish_case(data, hs, o):
    """Reuse: every round frees everything, so the heap may not grow beyond what one round needs."""
    span, need = None, 0
    lo, hi = None, 0
    for it, (h, end) in hs:
        tot = 0
        for op, x in zip(it["ops"], h):
            if op[0] == "f":
                continue
            n = op[2] * op[3] if op[0] == "c" else op[2]
            p = o.u(x[0])
            if p:
                tot += n + 64
                lo = p if lo is None else min(lo, p)
                hi = max(hi, p + n)
        need = max(need, tot)
    if data.get("rounds") and lo is not None and hi - lo > need + 4096 and o.target in ("linux", "macos", "dosp"):
        return "the heap spread over %d bytes; no history used more than %d" % (hi - lo, need)
    return None


def nontrivial(it):
    live = set()
    for op in it["ops"]:
        if op[0] in ("f", "r") and len(live) > 1:
            return True
        if op[0] == "f":
            live.discard(op[1])
        else:
            live.add(op[1])
    return False


def kind(it):
    return "ops%d" % len(it["ops"])


def show(it):
    return " ".join("%s%s" % (o[0], tuple(o[1:])) for o in it["ops"])[:900]


def simpler(it):
    for c in libcheck.simpler_list(it, "ops"):
        live, ok = set(), []
        for op in c["ops"]:
            if op[0] == "f" and op[1] not in live:
                continue
            if op[0] == "f":
                live.discard(op[1])
            elif op[0] in ("m", "c", "r0") and op[1] in live:
                continue
            else:
                live.add(op[1])
            ok.append(op)
        if ok and len(ok) < len(it["ops"]):
            yield {**it, "ops": ok}


def gen_round(rng, b16):
    """Allocations of random sizes, then all freed in a random order, without any realloc."""
    n = rng.randrange(1, SLOTS)
    left = 8000 if b16 else rng.choice([4000, 8000, 100000])
    ops = []
    for k in range(n):
        z = rng.randrange(1, max(2, left // rng.choice([1, 2, 4, 10])))
        left = max(2, left - z - 16)
        ops.append(["m", k, z] if rng.random() < 0.8 else ["c", k, z, 1])
    fr = list(range(n))
    rng.shuffle(fr)
    return {"ops": ops + [["f", k] for k in fr], "v": rng.randrange(256)}


def gen(rng, idx, tier):
    import sys
    t = libcheck.pick_target(rng, idx, DOS_EVERY, libcheck.DOS, targets.HOSTED)
    d = libcheck.gen(rng, sys.modules[__name__], PER_CASE if t not in libcheck.DOS else 12, t)
    if rng.random() < 0.25:
        return {"target": t, "rounds": 1, "items": [gen_round(rng, t in libcheck.DOS) for _ in range(rng.choice([6, 12, 30]))], "lim": 0}
    d["lim"] = rng.choice([0, 0, 0, 200000, 1 << 20, 16 << 20]) if t == "linux" else 0
    return d


def exec_args(data):
    return {"data": data["lim"]} if data["lim"] else {}


libcheck.bind(globals())
