"""Shared body of the whole-program checks."""
from . import cexpr, cprog, targets, exprcheck
from .core import Infra


def gen(rng, target, size):
    cfg = exprcheck.cfg_of(target, False)
    for _ in range(50):
        p = cprog.PGen(rng, cfg, size).program()
        try:
            out = cprog.Interp(cfg, p).run()
        except cprog.Stop:
            continue
        return {"target": target, "kind": "prog", "prog": p}
    raise Infra("no terminating program")


def check(tc, data, work):
    cfg = exprcheck.cfg_of(data["target"], False)
    p = data["prog"]
    try:
        exp = cprog.Interp(cfg, p).run()
    except (cprog.Stop, KeyError, cexpr.UB):
        return None, {}
    src = cprog.render(cfg, p)
    d = {}
    cprog.count(p, d)
    import hashlib
    st = {"evaluations": 1, "by_target": {data["target"]: 1}, "statements": d, "words_compared": len(exp),
          "nontrivial_keys": [hashlib.md5(src.encode()).hexdigest()[:12]] if len(exp) >= 4 and sum(d.values()) >= 8 else []}
    got, err = exprcheck.run_target(tc, data["target"], src, work)
    if got is None:
        return {"msg": err + "\n" + src[:3000]}, st
    if got != exp or err:
        n = next((i for i in range(min(len(exp), len(got))) if exp[i] != got[i]), min(len(exp), len(got)))
        return {"msg": "%s: output differs at word %d: expected %s, got %s (%s)\n%s" % (
            data["target"], n, exprcheck.hexs(exp[n:n + 4]), exprcheck.hexs(got[n:n + 4]), err, src[:6000])}, st
    return None, st


def candidates(data):
    cfg = exprcheck.cfg_of(data["target"], False)
    for p in cprog.prog_edits(data["prog"]):
        try:
            if cprog.valid(p):
                cprog.Interp(cfg, p).run()
                yield {**data, "prog": p}
        except (cprog.Stop, KeyError, cexpr.UB, IndexError):
            pass


def sample(data):
    cfg = exprcheck.cfg_of(data["target"], False)
    return {"target": data["target"], "program": cprog.render(cfg, data["prog"])[:3000]}
