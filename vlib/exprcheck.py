"""Shared body of the expression checks: generate items, compile for a target, run, compare with the evaluator."""
from . import cexpr, targets
from .core import Infra


def cfg_of(target, uchar):
    t = targets.TARGETS[target]
    return cexpr.Cfg(t.isz, not uchar, t.has_long, target in ("huge", "unreal", "linux"))


def gen(rng, target, n, const=False, maxsize=14):
    uchar = rng.random() < 0.3
    cfg = cfg_of(target, uchar)
    return {"target": target, "uchar": uchar, "items": [const_item(rng, cfg, maxsize) if const else cexpr.gen_item(rng, cfg, maxsize) for _ in range(n)]}


def const_item(rng, cfg, maxsize):
    while True:
        it = cexpr.gen_const_item(rng, cfg, maxsize)
        try:
            cexpr.render_item(cfg, it, 0)
            return it
        except cexpr.UB:
            pass



def run_target(tc, target, src, work, flags=()):
    """-> (words or None, failure text or None)"""
    try:
        exe = targets.compile_for(tc, target, src, work, "t", flags)
    except targets.Step as s:
        return None, "rejected a valid program: %s" % s
    if targets.TARGETS[target].dos:
        res = targets.run_dos(work, [exe.rsplit("/", 1)[1]])
        out = res[exe.rsplit("/", 1)[1]]
        if out is None:
            return None, "DOS program did not run"
        return targets.parse_words(out), None if res["ok"] else "DOS program did not return"
    if target == "mips":
        r = targets.run(["qemu-mipsel", exe], cwd=work, cpu=20)
    else:
        r = targets.run_native(exe, work)
    if r.rc == "wall":
        raise Infra("wall")
    return targets.parse_words(r.out), None if r.rc == 0 else "program ended with %s" % r.rc


def check(tc, data, work):
    cfg = cfg_of(data["target"], data["uchar"])
    try:
        src, exp = cexpr.program(cfg, data["items"])
    except cexpr.UB:
        return None, {}
    flags = ["-unsigned-char"] if data["uchar"] else []
    got, err = run_target(tc, data["target"], src, work, flags)
    keys = set()
    for it in data["items"]:
        if cexpr.nodes(it["expr"]) >= 3:
            keys.add(repr((it["expr"], it["ctx"], [v[:2] for v in it["vars"]])))
    st = {"evaluations": len(data["items"]), "nontrivial_keys": [hash_key(k) for k in keys],
          "by_target": {data["target"]: len(data["items"])}, "by_context": {}, "by_storage": {}, "ops": {}}
    for it in data["items"]:
        st["by_context"][it["ctx"]] = st["by_context"].get(it["ctx"], 0) + 1
        for v in it["vars"]:
            st["by_storage"][v[1]] = st["by_storage"].get(v[1], 0) + 1
        count_ops(it["expr"], st["ops"])
    if got is None:
        return {"msg": err + "\n" + (src if len(data["items"]) < 3 else "")}, st
    bad = cexpr.first_bad(exp, got)
    if bad:
        k, want, have = bad
        msg = "item %d on %s: expected words %s, got %s%s" % (k, data["target"], hexs(want), hexs(have), " (%s)" % err if err else "")
        s, c, _ = cexpr.render_item(cfg, data["items"][k], k)
        return {"msg": msg + "\n" + s + c, "items": [k]}, st
    if err:
        return {"msg": err}, st
    return None, st


def hash_key(s):
    import hashlib
    return hashlib.md5(s.encode()).hexdigest()[:12]


def hexs(ws):
    return [("%x" % w if isinstance(w, int) else w) for w in ws]


def count_ops(e, d):
    k = e[0] if e[0] != "bin" else e[1]
    if e[0] == "asg":
        k = e[1]
    d[k] = d.get(k, 0) + 1
    for c in cexpr.children(e):
        count_ops(c, d)


def candidates(data):
    cfg = cfg_of(data["target"], data["uchar"])
    if len(data["items"]) == 1:
        n0 = cexpr.nodes(data["items"][0]["expr"])
        for it in cexpr.item_candidates(cfg, data["items"][0]):
            try:
                cexpr.render_item(cfg, it, 0)
            except (cexpr.UB, KeyError, IndexError):
                continue
            if cexpr.nodes(it["expr"]) > n0:
                continue
            if it != data["items"][0]:
                yield {**data, "items": [it]}
    if data["uchar"]:
        yield {**data, "uchar": False}


def sample(data):
    cfg = cfg_of(data["target"], data["uchar"])
    s, c, x = cexpr.render_item(cfg, data["items"][0], 0)
    return {"target": data["target"], "function": s, "call": c, "expected": hexs(x)}
