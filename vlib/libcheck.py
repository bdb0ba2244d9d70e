"""Shared body of the checks that drive library functions through the call server (rt/srv.c)."""
import hashlib, json
from . import srv, targets

DOS = ("huge", "unreal", "small")      # run under DOSBox


def gen(rng, mod, n, target):
    bits16 = target.split("@")[0] == "small"
    return {"target": target, "items": [mod.gen_item(rng, bits16) for _ in range(n)]}


def check(mod):
    def f(tc, data, work):
        full = data["target"]
        t = full.split("@")[0]           # target@assembler: the library and the server built with another assembler
        bits16 = t == "small"
        s = srv.Script(bits16)
        h = []
        for it in data["items"]:
            p0 = len(s.plan)
            hd = mod.emit(it, s)
            s.mark()
            h.append((it, hd, p0, len(s.plan)))
        kw = mod.exec_args(data) if hasattr(mod, "exec_args") else {}
        o = srv.execute(tc, s, work, full, **kw)
        o.now = data.get("now")
        o.target, o.limited, o.rounds, o.work = t, bool(data.get("lim")), bool(data.get("rounds")), work
        keys, kinds = [], {}
        fail = None
        for k, (it, hd, p0, p1) in enumerate(h):
            if len(o.v) < p1:
                fail = (k, "the program stopped (%s) during: %s" % (o.rc, mod.show(it)))
                break
            m = mod.verify(it, hd, o)
            if m:
                fail = (k, "%s\nin %s" % (m, mod.show(it)))
                break
            if mod.nontrivial(it):
                keys.append(hashlib.md5(json.dumps(it, sort_keys=True).encode()).hexdigest()[:12])
            kd = mod.kind(it)
            kinds[kd] = kinds.get(kd, 0) + 1
        if not fail and hasattr(mod, "finish_case"):
            m = mod.finish_case(data, [(x[0], x[1]) for x in h], o)
            if m:
                fail = (len(h) - 1, m)
        if not fail and o.rc != 0:
            fail = (len(h) - 1, "the program ended with %s" % o.rc)
        st = {"evaluations": len(data["items"]), "nontrivial_keys": keys, "by_target": {t: len(data["items"])}, "kinds": kinds}
        if fail:
            k = fail[0]
            return {"msg": "%s: %s" % (full, fail[1]), "items": [k]}, st
        return None, st
    return f


def candidates(mod):
    def f(data):
        if len(data["items"]) != 1:
            return
        for c in mod.simpler(data["items"][0]):
            yield {**data, "items": [c]}
    return f


def simpler_list(item, key):
    """Items with parts of a list field left out."""
    L = item[key]
    n = len(L)
    size = n // 2
    while size:
        for i in range(0, n, size):
            if n - size >= 1:
                yield {**item, key: L[:i] + L[i + size:]}
        size //= 2


def sample(mod):
    def f(data):
        return {"target": data["target"], "items": [mod.show(x) for x in data["items"][:3]]}
    return f


def pick_target(rng, idx, dos_every=40, dos=("huge", "unreal", "small"), hosted=()):
    if hosted and idx % 4 == 2:
        return hosted[idx // 4 % len(hosted)]
    if dos and idx % dos_every == 17:
        return dos[(idx // dos_every) % len(dos)]
    return "linux"


def bind(ns):
    """Fills in the module-level functions of a check from its item functions."""
    import sys
    mod = sys.modules[ns["__name__"]]
    ns["check"], ns["candidates"], ns["sample"] = check(mod), candidates(mod), sample(mod)
    ns.setdefault("nontrivial", lambda it: True)
    ns.setdefault("kind", lambda it: it.get("k", "item"))
    ns.setdefault("simpler", lambda it: [])
    ns.setdefault("show", lambda it: json.dumps(it)[:600])
    tg = ns.get("TARGETS", ("linux", "huge", "unreal", "small") + targets.HOSTED)
    n, every = ns.get("PER_CASE", 100), ns.get("DOS_EVERY", 60)

    def g(rng, idx, tier):
        t = pick_target(rng, idx, every, [x for x in tg if x in DOS], [x for x in tg if x in targets.HOSTED])
        return gen(rng, mod, n, t)

    def s(tc):
        srv.setup_all(tc, tg)
    ns.setdefault("gen", g)
    ns.setdefault("setup", s)
    ns.setdefault("NEEDS", ("tools",))
