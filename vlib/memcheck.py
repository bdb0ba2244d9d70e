"""Shared body of the checks over shaped data."""
import hashlib
from . import cexpr, cmem, exprcheck


def gen(rng, target, weights, n=3, **kw):
    cfg = exprcheck.cfg_of(target, False)
    items = []
    while len(items) < n:
        u = cmem.MGen(rng, cfg, weights, **kw).unit()
        try:
            cmem.run_unit(cfg, u, 0)
        except cmem.Bad:
            continue
        items.append(u)
    return {"target": target, "kind": "mem", "items": items}


def check(tc, data, work):
    cfg = exprcheck.cfg_of(data["target"], False)
    try:
        src, exp = cmem.program(cfg, data["items"])
    except (cmem.Bad, IndexError, KeyError, cexpr.UB):
        return None, {}
    ops = {}
    keys = []
    for u, x in zip(data["items"], exp):
        for o in u["ops"]:
            ops[o[0]] = ops.get(o[0], 0) + 1
        if len(x) >= 5:
            keys.append(hashlib.md5(repr((u["structs"], [o["T"] for o in u["objs"]], u["ops"])).encode()).hexdigest()[:12])
    st = {"evaluations": len(data["items"]), "nontrivial_keys": keys, "by_target": {data["target"]: len(data["items"])}, "operations": ops,
          "words_compared": sum(map(len, exp))}
    got, err = exprcheck.run_target(tc, data["target"], src, work)
    if got is None:
        return {"msg": err + "\n" + src[:4000]}, st
    bad = cexpr.first_bad(exp, got)
    if bad or err:
        k, want, have = bad or (0, [], [])
        n = next((i for i in range(min(len(want), len(have))) if want[i] != have[i]), 0)
        try:
            t = cmem.program(cfg, [data["items"][k]])[0]
        except cmem.Bad:
            t = ""
        return {"msg": "%s: unit %d word %d: expected %s, got %s %s\n%s" % (data["target"], k, n, exprcheck.hexs(want[n:n + 6]),
                                                                          exprcheck.hexs(have[n:n + 6]), err, t[:5000]), "items": [k]}, st
    return None, st


def candidates(data):
    cfg = exprcheck.cfg_of(data["target"], False)

    def ok(u):
        try:
            cmem.run_unit(cfg, u, 0)
            return True
        except (cmem.Bad, IndexError, KeyError, cexpr.UB):
            return False
    if len(data["items"]) != 1:
        return
    u = data["items"][0]
    n = len(u["ops"])
    size = n
    while size:
        for i in range(0, n, size):
            v = {**u, "ops": u["ops"][:i] + u["ops"][i + size:]}
            if ok(v):
                yield {**data, "items": [v]}
        size //= 2
    # drop unused objects from the end, or simplify their storage
    for i in range(len(u["objs"]) - 1, -1, -1):
        v = {**u, "objs": u["objs"][:i] + u["objs"][i + 1:]}
        v = renum(v, i)
        if v and ok(v):
            yield {**data, "items": [v]}
    if u["salt"]:
        yield {**data, "items": [{**u, "salt": 0}]}


def renum(u, i):
    """Object i is gone: shift references, or None if it is used."""
    bad = [False]

    def w(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "obj":
                if x[1] == i:
                    bad[0] = True
                return ["obj", x[1] - (x[1] > i)]
            return [w(y) for y in x]
        if isinstance(x, dict):
            return {k: w(v) for k, v in x.items()}
        return x
    v = {**u, "objs": [w(o) for o in u["objs"]], "ops": w(u["ops"])}
    return None if bad[0] else v


def sample(data):
    cfg = exprcheck.cfg_of(data["target"], False)
    t, c, x = cmem.run_unit(cfg, data["items"][0], 0)
    return {"target": data["target"], "unit": t[:3000], "expected": exprcheck.hexs(x)[:40]}
