"""L04: undefined and duplicate symbols."""
import copy, json, os
from vlib import exprcheck, linkm, linkcheck

ID = "L04"
NEEDS = ("smlrl",)
QUICK = (4000, 40)
THOROUGH = (120000, 600)
TECHNIQUE = "property-based testing: generated dependency graphs with planted missing and repeated definitions; verdict against the reference resolver"
LEVEL_NOTE = "Missing definitions at any depth, in objects that are needed and that are not; repeated definitions among needed objects (also in one archive, in the other symbol-table layouts) and between a needed and an unneeded one; missing entry; start/stop symbols of sections that do not exist; an executable of an earlier link in the way."
RULE = ("Each evaluation is one link whose verdict the reference resolver knows: failure with status 1, a message naming one of the symbols at fault, and no output file; or success. Cases in which the choice among several definitions decides are not generated. Non-trivial: an expected error, or a success with an unneeded or repeated definition; distinct by scenario.")
ASSUMPTIONS = ["an object takes part only if a needed object refers to one of its symbols, whether given as object or in an archive (doc/smlrl.md, tests)"]


def gen(rng, idx, tier):
    fmt = linkm.FORMATS[rng.randrange(len(linkm.FORMATS))]
    c = linkm.gen_case(rng, fmt, nmax=rng.choice([4, 6, 9]))
    objs = list(linkcheck.objects(c))
    kind = rng.choice(["undef", "undef", "dup", "dup", "entry", "start", "unneeded", "none"])
    if kind == "undef":
        cand = [(o, d) for o in objs for d in o["defs"] if d[0] != c["entry"]]
        for o, d in rng.sample(cand, min(len(cand), rng.choice([1, 1, 2]))):
            how = rng.random()
            if how < 0.5:
                o["defs"].remove(d)
                own = {x[0] for x in o["defs"]} | set(o["und"])
                for s in o["secs"]:
                    s["rels"] = [r for r in s["rels"] if r[1] != ["g", d[0]] or d[0] in own]
            elif how < 0.8 and not any(d[0] in x["und"] for x in objs if x is o):
                # becomes a local symbol of the same name
                o["defs"].remove(d)
                o["loc"].append([d[0], d[1], d[2]])
                for s in o["secs"]:
                    s["rels"] = [[r[0], ["l", len(o["loc"]) - 1], r[2], r[3]] if r[1] == ["g", d[0]] else r for r in s["rels"]]
            else:
                rng.choice(objs)["und"].append(rng.choice([d[0] + "x", d[0][:-1], d[0].upper() + "_", "__start", "__stop_"]) if True else "")
    elif kind == "dup":
        for _ in range(rng.choice([1, 1, 2])):
            o = rng.choice(objs)
            p = rng.choice(objs)
            if o is p or not o["defs"]:
                continue
            d = rng.choice(o["defs"])
            if d[0] in [x[0] for x in p["defs"]]:
                continue
            i = rng.choice([i for i, s in enumerate(p["secs"]) if s["f"] & linkm.ALLOC])
            p["und"] = [u for u in p["und"] if u != d[0]]
            p["defs"].append([d[0], i, 0, rng.choice([d[3], 0, 1, 2])])
    elif kind == "entry":
        c["entry"] = rng.choice([c["entry"] + "2", "__start_", "no_such_entry", c["entry"][:-1]])
    elif kind == "start":
        o = rng.choice(objs)
        n = rng.choice(["__start_", "__stop_"]) + rng.choice(["_txt", "_bs", "_datax", "__data", "allcode_", "_rodat", "text", "_heap__"])
        if n not in o["und"]:
            o["und"].append(n)
    elif kind == "unneeded":
        objs[rng.randrange(len(objs))]["und"].append("nowhere_to_be_found")
    for o in objs:
        mine = {d[0] for d in o["defs"]}
        o["und"] = [u for k, u in enumerate(o["und"]) if u not in mine and u not in o["und"][:k]]
    return {"case": c, "kind": kind, "old": rng.random() < 0.5}


def needed_if(case, pick):
    """Objects needed when the symbol's definer is chosen by pick(name, definers)."""
    m = linkm.Model(case)
    objs = m.objs
    defs = {}
    for i, o in enumerate(objs):
        for d in o["defs"]:
            defs.setdefault(d[0], []).append(i)
    need, work, seen = set(), [case["entry"]], set()
    while work:
        n = work.pop()
        if n in seen or n not in defs:
            continue
        seen.add(n)
        i = pick(n, defs[n], need)
        if i not in need:
            need.add(i)
            work.extend(objs[i]["und"])
    return need


def ambiguous(case):
    a = needed_if(case, lambda n, d, need: d[0])
    b = needed_if(case, lambda n, d, need: d[-1])
    c = needed_if(case, lambda n, d, need: next((x for x in d if x in need), d[0]))
    return not (a == b == c)


def check(tc, data, work):
    case = data["case"]
    m = linkm.Model(case)
    if ambiguous(case) or m.inconsistent or m.nocode:
        return None, {"evaluations": 0}
    und = set(m.undefined or ()) | (m.badstart - {"__start__relod", "__stop__relod"})
    bad = und | m.duplicate
    if data["old"]:
        with open(os.path.join(work, "old"), "wb") as f:
            f.write(b"\x7fELF" + b"x" * 5000)
    r, exe, mp = linkcheck.link(tc, case, work)
    if data["old"]:
        # once more over an existing file
        with open(os.path.join(work, "x.exe"), "wb") as f:
            f.write(b"\x7fELF" + b"x" * 5000)
        import subprocess
        from vlib import core
        names = [n for n, b in linkm.files_of(case)]
        r = core.run([tc.bin + "/smlrl"] + linkm.args_of(case, "x.exe") + names, cwd=work)
        p = os.path.join(work, "x.exe")
        exe = open(p, "rb").read() if os.path.exists(p) else None
    msg = (r.out + r.err).decode("latin-1")
    st = {"evaluations": 1, "kinds": {data["kind"]: 1}, "verdicts": {"error" if bad else "success": 1}}
    if bad:
        st["nontrivial_keys"] = [exprcheck.hash_key(json.dumps(data))]
        if r.rc != 1:
            return {"msg": "status %s although %s is wrong: %s" % (r.rc, sorted(bad), msg[-200:]), "cat": "status"}, st
        kinds = ["'%s' not found" % n for n in und] + ["'%s' defined multiple" % n for n in m.duplicate]
        if not any(n in msg for n in bad):
            return {"msg": "no symbol at fault (%s) is named: %s" % (sorted(bad), msg[-200:]), "cat": "message"}, st
        if exe is not None:
            return {"msg": "an output file of %d bytes is left behind" % len(exe), "cat": "left"}, st
        return None, st
    if r.rc != 0 or exe is None:
        if r.rc == 1 and any(t in msg for t in linkcheck.LIMITS):
            return None, {"evaluations": 0}
        return {"msg": "valid link refused: rc=%s %s" % (r.rc, msg[-300:]), "cat": "refused"}, st
    if len(m.needed) < len(m.objs) and data["kind"] != "none":
        st["nontrivial_keys"] = [exprcheck.hash_key(json.dumps(data))]
    return None, st


def candidates(data):
    yield dict(data, old=False)
    # (dropping a definition would itself make the error go away or appear, so only the neutral reductions)
    for d in linkcheck.candidates(data):
        yield d


sample = linkcheck.sample


def signature(data, fail):
    return fail.get("cat")
