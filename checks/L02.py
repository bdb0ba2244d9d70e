"""L02: the same program in every format."""
import json
from vlib import exprcheck, linkm, linkcheck
from vlib.linkm import ABS32, ABS16, PC16, PC32

ID = "L02"
NEEDS = ("smlrl",)
QUICK = (1500, 40)
THOROUGH = (40000, 600)
TECHNIQUE = "property-based testing: the same generated objects linked into every format, strict loaders for each format, contents compared"
LEVEL_NOTE = "Loaders check every header field a system loader relies on (sizes, offsets, alignment, order and permissions of segments, entry point, memory asked for); the loaded images must hold the same pieces with every relocated field right. With and without a DPMI stub, -norel, -nobss, -gui, -pesubsys, other origins."
RULE = ("Each evaluation links one set of objects into all formats of its word size (3 of 16 bits, up to 7 of 32) and judges each image. Non-trivial: at least 3 formats linked and 4 pieces; distinct by scenario.")
ASSUMPTIONS = ["the loaders follow the published formats; a section of size 0 in a PE file is accepted"]
CATS = ("load", "content", "reloc", "startstop", "members")


def gen(rng, idx, tier):
    k = idx % 4
    if k == 0:
        c = linkm.gen_case(rng, "flat16")
        fmts = ["flat16", "tiny", "small"]
    elif k == 1:
        c = linkm.gen_case(rng, "huge")
        fmts = ["huge", "unreal", "elf", "pe", "mach", "aout", "flat32"]
        for o in linkcheck.objects(c):
            seen = set()
            for s in o["secs"]:
                if s["n"] in (".relot", ".relod"):
                    s["n"] = ".rodata"
                s["rels"] = [x for x in s["rels"] if x[1] != ["0"] and x[2] in (ABS32, PC32)]
                s["rels"] = [[a, ["g", r[1].replace("__relot", "__rodata").replace("__relod", "__rodata")] if r[0] == "g" else r, t, v] for a, r, t, v in s["rels"]]
            o["und"] = sorted({u.replace("__relot", "__rodata").replace("__relod", "__rodata") for u in o["und"]})
    else:
        c = linkm.gen_case(rng, "pe")
        fmts = ["pe", "elf", "mach", "aout", "flat32"]
    c["opts"] = [x for x in c["opts"] if x == "-nobss"]
    c["origin"] = c["stack"] = None
    v = []
    for f in fmts:
        o = {"fmt": f, "opts": [], "origin": None, "stack": None}
        if f in ("elf", "pe", "mach", "flat32") and rng.random() < 0.3:
            o["origin"] = rng.choice([0x10000, 0x400000, 0x8000000, 0x10000 * rng.randint(1, 0x7FFF), 0x1000 * rng.randint(16, 0xF0000)])
        if f == "flat16" and rng.random() < 0.3:
            o["origin"] = rng.choice([0x7C00, 0x100, rng.randint(0, 0x3000)])
        if f == "pe":
            o["opts"] = rng.choice([[], [], ["-norel"], ["-gui"], ["-pesubsys", "10"]])
        if f in ("tiny", "small", "huge", "unreal") and rng.random() < 0.3:
            o["stack"] = rng.choice([8192, 12000, 20000])
        if f == "aout" and rng.random() < 0.5:
            o["stub"] = [rng.choice([64, 200, 512, 1000, 1024, 1500, 4096, rng.randint(64, 3000)]), rng.getrandbits(30), rng.choice([None, 8192, 4096, 5000, 0]),
                         rng.choice([None, 65536, 100000, 0]), rng.choice([None, 1 << 20, 70000])]
        v.append(o)
    return {"case": c, "variants": v}


def stub_bytes(n, seed):
    import random, struct
    b = bytearray(random.Random(seed).randbytes(n))
    b[:2] = b"MZ"
    struct.pack_into("<HH", b, 2, n % 512, (n + 511) // 512)
    return bytes(b)


def up(x):
    return (x + 4095) & ~4095


def check(tc, data, work):
    import os
    done, st, fmts, pieces = 0, {}, {}, 0
    for v in data["variants"]:
        c = dict(data["case"], fmt=v["fmt"], origin=v["origin"], stack=v["stack"], opts=data["case"]["opts"] + v["opts"])
        extra, stub = [], None
        if v.get("stub"):
            n, seed, stk, mn, mx = v["stub"]
            stub = stub_bytes(n, seed)
            with open(os.path.join(work, "stub.exe"), "wb") as f:
                f.write(stub)
            extra = ["-stub", "stub.exe"]
            for o, x in (("-stack", stk), ("-minheap", mn), ("-maxheap", mx)):
                if x is not None:
                    extra += [o, str(x)]
        if linkcheck.rejected(c):
            continue
        r, exe, mp = linkcheck.link(tc, c, work, extra=extra)
        msg = (r.out + r.err).decode("latin-1")
        if r.rc != 0 or exe is None:
            if r.rc == 1 and any(t in msg for t in linkcheck.LIMITS):
                continue
            return {"msg": "smlrl -%s failed on valid objects: rc=%s %s" % (v["fmt"], r.rc, msg[-300:]), "cat": "refused"}, {"evaluations": 1}
        j = linkcheck.Judge(c, exe, mp, stub)
        fails = [f for f in j.judge() if f[0] in CATS]
        if not fails and stub is not None:
            n, seed, stk, mn, mx = v["stub"]
            mn = up(mn or 0x80000)
            want = (up(stk or 65536), mn, max(mn, up(0x1000000 if mx is None else mx)))
            if j.img.x["info"][1:4] != want:
                fails = [("load", "the stub info record says stack and heap sizes %s instead of %s" % (j.img.x["info"][1:4], want))]
        if not fails and v["fmt"] == "pe":
            sub = {"-gui": 2, "-pesubsys": 10}.get(v["opts"][0] if v["opts"] else "", 3)
            if j.img.x["subsys"] != sub:
                fails = [("load", "the PE subsystem is %d instead of %d" % (j.img.x["subsys"], sub))]
            if ("-norel" in v["opts"]) != bool(j.img.x["ch"] & 1):
                fails = [("load", "-norel and the relocations do not agree")]
        if not fails and v["fmt"] in ("elf", "pe", "mach"):
            want = v["origin"] & ~4095 if v["origin"] is not None else {"elf": 0x8048000, "pe": 0x400000, "mach": 0x1000}[v["fmt"]]
            if j.img.base - (4096 if v["fmt"] == "elf" else 0) != want:
                fails = [("load", "the image base is 0x%x instead of 0x%x" % (j.img.base, want))]
        if not fails and v["fmt"] in ("huge", "unreal"):
            if j.img.x["sp"] != (v["stack"] or 32768):
                fails = [("load", "the stack size is %d" % j.img.x["sp"])]
        if fails:
            return {"msg": "-%s: " % v["fmt"] + "; ".join("%s: %s" % f for f in fails[:3]), "cat": fails[0][0] + v["fmt"]}, {"evaluations": 1}
        done += 1
        fmts[v["fmt"]] = 1
        linkcheck_merge(st, j.stats)
        pieces = j.stats["pieces"]
    return None, {"evaluations": 1 if done else 0, "formats": fmts, "links": st, "linked": done,
                  "nontrivial_keys": [exprcheck.hash_key(json.dumps(data))] if done >= 3 and pieces >= 4 else []}


def linkcheck_merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def candidates(data):
    for k in range(len(data["variants"])):
        if len(data["variants"]) > 1:
            yield dict(data, variants=[data["variants"][k]])
    for k, v in enumerate(data["variants"]):
        for key in ("stub", "origin", "stack"):
            if v.get(key) is not None:
                w = [dict(x) for x in data["variants"]]
                w[k][key] = None
                yield dict(data, variants=w)
    yield from linkcheck.candidates(data)


sample = linkcheck.sample


def signature(data, fail):
    return fail.get("cat")
