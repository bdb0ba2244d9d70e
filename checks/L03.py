"""L03: archives contribute exactly the members a program needs."""
import copy, json
from vlib import exprcheck, linkm, linkcheck

ID = "L03"
NEEDS = ("smlrl",)
QUICK = (2500, 40)
THOROUGH = (60000, 600)
TECHNIQUE = "property-based testing: generated dependency graphs; members found in the executable against the reachable set, and equality of executables under regrouping and unneeded inputs"
LEVEL_NOTE = "Up to 12 objects in chains, cycles and fans, as objects and in archives of five styles (GNU with long names and symbol index, BSD, plain), in any order; regrouped into other archives, linked as plain objects, permuted, and with further objects and libraries that nothing needs (which may lack symbols, repeat earlier definitions or be named alike)."
RULE = ("Each evaluation links one graph in 3 to 5 arrangements. The executable has to hold exactly the reachable objects, each once and complete; other groupings and unneeded additions must give the identical file. Non-trivial: at least one object needed through another and one not needed; distinct by scenario.")
ASSUMPTIONS = ["where two objects define one symbol, the first in command-line order is the one used"]
CATS = ("members", "content", "reloc", "load", "layout")


def gen(rng, idx, tier):
    fmt = linkm.FORMATS[idx % len(linkm.FORMATS)]
    c = linkm.gen_case(rng, fmt, nmax=rng.choice([5, 8, 12]))
    c["map"] = False
    objs = list(linkcheck.objects(c))
    v = [["group", rng.getrandbits(30)]]
    if rng.random() < 0.6:
        v.append(["plain"])
    ex = []
    for k in range(rng.choice([1, 2, 3])):
        o = linkm.gen_obj(rng, fmt, 100 + k, 3, False)
        for s in o["secs"]:
            s["rels"] = []
        al = [i for i, s in enumerate(o["secs"]) if s["f"] & linkm.ALLOC]
        o["defs"] = [["extra%d_%d" % (k, i), rng.choice(al), 0, 0] for i in range(rng.choice([0, 1, 2]))]
        if rng.random() < 0.5:
            o["und"] = rng.choice([["nowhere"], [c["entry"]], ["extra%d_0" % (k + 1)], [d[0] for p in objs for d in p["defs"]][:3]])
        if rng.random() < 0.2:
            for s in o["secs"]:
                if s["t"] == linkm.PROGBITS and s["f"] == linkm.ALLOC:
                    s["n"] = rng.choice([".text", ".data"])     # would be inconsistent if it took part
        dup = None
        if rng.random() < 0.4:
            dup = rng.random()
        ex.append([rng.random(), o, dup])
    v.append(["extra", ex, rng.getrandbits(30)])
    if rng.random() < 0.5:
        v.append(["perm", rng.getrandbits(30)])
    return {"case": c, "variants": v}


def apply(case, v):
    import random
    c = copy.deepcopy(case)
    if v[0] == "group":
        c["inputs"] = linkm.pack(random.Random(v[1]), list(linkcheck.objects(c)))
    elif v[0] == "plain":
        c["inputs"] = [{"kind": "o", "obj": o} for o in linkcheck.objects(c)]
    elif v[0] == "perm":
        objs = list(linkcheck.objects(c))
        random.Random(v[1]).shuffle(objs)
        c["inputs"] = linkm.pack(random.Random(v[1]), objs)
    else:
        objs = list(linkcheck.objects(c))
        for pos, o, dup in v[1]:
            o = copy.deepcopy(o)
            k = int(pos * (len(objs) + 1))
            if dup is not None:
                before = [d[0] for p in objs[:k] for d in p["defs"]]
                if before:
                    i = next(i for i, s in enumerate(o["secs"]) if s["f"] & linkm.ALLOC)
                    o["defs"].append([before[int(dup * len(before))], i, 0, 0])
                    o["und"] = [u for u in o["und"] if u != o["defs"][-1][0]]
            mine = {d[0] for d in o["defs"]}
            o["und"] = [u for u in o["und"] if u not in mine]
            objs.insert(k, o)
        c["inputs"] = linkm.pack(random.Random(v[2]), objs)
    return c


def check(tc, data, work):
    case = data["case"]
    f, st, j = linkcheck.judge_one(tc, case, work, CATS)
    if f:
        return f, {"evaluations": 1}
    if st.get("rejected") or st.get("toobig"):
        return None, {"evaluations": 0, "links": st}
    m = j.m
    for v in data["variants"]:
        c = apply(case, v)
        if linkcheck.rejected(c) or (v[0] != "perm" and len(linkm.Model(c).needed) != len(m.needed)):
            continue
        st["variants"] = st.get("variants", 0) + 1
        if v[0] == "perm":
            f, s2, j2 = linkcheck.judge_one(tc, c, work, CATS, "p")
            if f:
                f["msg"] = "permuted: " + f["msg"]
                return f, {"evaluations": 1}
            continue
        r, exe, mp = linkcheck.link(tc, c, work, "v")
        if r.rc != 0 or exe is None:
            return {"msg": "%s: smlrl failed: rc=%s %s" % (v[0], r.rc, (r.out + r.err)[-300:].decode("latin-1")), "cat": "v" + v[0]}, {"evaluations": 1}
        if exe != j.exe:
            return {"msg": "%s: the executable differs although the same objects take part in the same order" % {"group": "other archives", "plain": "without archives", "extra": "unneeded inputs added"}[v[0]], "cat": "v" + v[0]}, {"evaluations": 1}
    indirect = any(m.objs[i]["und"] for i in m.needed if not any(d[0] == case["entry"] for d in m.objs[i]["defs"]))
    ok = len(m.needed) >= 2 and (indirect or len(m.needed) < len(m.objs))
    return None, {"evaluations": 1, "links": st, "formats": {case["fmt"]: 1}, "needed": len(m.needed), "objects": len(m.objs),
                  "nontrivial_keys": [exprcheck.hash_key(json.dumps(data))] if ok else []}


def candidates(data):
    for k in range(len(data["variants"])):
        if len(data["variants"]) > 1:
            yield dict(data, variants=[data["variants"][k]])
    for k, v in enumerate(data["variants"]):
        if v[0] == "extra" and len(v[1]) > 1:
            for i in range(len(v[1])):
                yield dict(data, variants=[["extra", v[1][:i] + v[1][i + 1:], v[2]]])
    yield from linkcheck.candidates(data)


sample = linkcheck.sample


def signature(data, fail):
    return fail.get("cat")
