"""D03: a failing step fails the driver and leaves nothing behind."""
import json, os
from vlib import drv, drvgen, exprcheck

ID = "D03"
NEEDS = ("smlrcc",)
QUICK = (2500, 45)
THOROUGH = (100000, 600)
TECHNIQUE = "property-based testing with fault injection: generated driver commands in which a chosen tool invocation fails in a chosen way, against a reference model of the remaining files"
LEVEL_NOTE = "Every invocation of every tool in generated multi-source commands can fail (error status before, during or after writing its output, death by signal, missing tool), inputs can be missing and output directories unwritable."
RULE = ("Each evaluation is one driver command in which one stand-in tool fails, an input of an archive is missing, or nothing fails. Oracle: with a failure the exit status is not 0, no later tool runs, the executable or archive is absent, every temporary file is gone, inputs are untouched; "
        "without one the exit status is 0 and exactly inputs and requested outputs remain. Non-trivial: a failure in a command with at least 3 steps; distinct by command and fault.")
ASSUMPTIONS = ["with -c (no archive) and -S, objects or assembly files made before the failure may stay or go", "files an input's temporary would overwrite (a.i, a.asm, a.o for a.c) are not inputs (documented)"]


def gen(rng, idx, tier):
    d = drvgen.command(rng, special=rng.random() < 0.2)
    k = rng.random()
    d["fault"] = [rng.randrange(14), rng.choice("npcxzkh")] if k < 0.8 else ["gone"] if k < 0.87 else ["nodir"] if k < 0.93 else None
    return d


def setup(tc):
    drv.setup_fakes(tc)


def check(tc, data, work):
    data = dict(data)
    fault = data["fault"]
    if fault == ["nodir"]:
        data["units"] = [["-o", "nodir/" + u[1]] if u[0] == "-o" and len(u) > 1 else u for u in data["units"]]
    w, args, env, p = drvgen.prepare(tc, data, work)
    inputs = {}
    for n, path in drv.tree(w).items():
        inputs[n] = open(path, "rb").read()
    st = {"evaluations": 1}

    def bad(m):
        return {"msg": "smlrcc %r, fault %r: %s" % (args, fault, m)}, st
    if p is None or p.badtype:
        return None, {"evaluations": 0}
    fail, hide, k = None, (), None
    if fault and isinstance(fault[0], int):
        k = fault[0] % len(p.steps) if p.steps else None
        if k is not None:
            if fault[1] == "h":
                hide = (p.steps[k].tool,)
                k = min(i for i, s in enumerate(p.steps) if s.tool in hide)
            else:
                fail = "%d %s" % (k, fault[1])
    elif fault == ["gone"] and p.archive:
        obj = [o for o in p.archive if o in p.inputs]
        if obj:
            os.unlink(os.path.join(w.encode(), obj[-1].encode("latin-1")))
            inputs.pop(os.path.normpath(obj[-1]))
            k = len(p.steps)
    elif fault == ["nodir"] and p.out and p.out.startswith("nodir/"):
        if p.archive is not None:
            k = len(p.steps)
        else:
            k = [i for i, s in enumerate(p.steps) if s.out == p.out]
            k = k[0] if k else None
    r, log = drv.run_fake(tc, args, env, w, fail, hide)
    after = drv.tree(w)
    st["faults"] = {"none" if k is None else "%s %s" % (p.steps[k].tool if k < len(p.steps) else "archive", fault[1] if len(fault) > 1 else fault[0]): 1}
    if k is not None and len(p.steps) >= 3:
        st["nontrivial_keys"] = [exprcheck.hash_key(json.dumps(data, sort_keys=True))]
    for n, b in inputs.items():
        if n not in after:
            return bad("the file %r is gone" % n)
        if open(after[n], "rb").read() != b:
            return bad("the file %r has changed" % n)
    left = {n for n in after if n not in inputs}
    outs = {os.path.normpath(x) for x in p.outs}
    temps = {os.path.normpath(x) for x in p.temps}
    if k is None:
        if r.rc != 0:
            return bad("exit status %s: %r" % (r.rc, (r.out + r.err)[-200:]))
        if left != outs:
            return bad("%r remain, requested are %r" % (sorted(left), sorted(outs)))
        return None, st
    if r.rc == 0:
        return bad("exit status 0 though step %d of %d fails" % (k, len(p.steps)))
    ran = len(log)
    if ran > k + (0 if hide else 1):
        return bad("%r still runs after the failure" % log[k + (0 if hide else 1)][:3])
    if left & temps:
        return bad("the temporary files %r remain" % sorted(left & temps))
    final = p.archive is not None or any(s.tool == "smlrl" for s in p.steps) or len(p.inputs) == 1
    if final and p.out and os.path.normpath(p.out) in left:
        return bad("the output %r is there" % p.out)
    if left - outs:
        return bad("unexpected files %r" % sorted(left - outs))
    return None, st


def candidates(data):
    for i in range(len(data["units"])):
        yield {**data, "units": data["units"][:i] + data["units"][i + 1:]}
    for k in data["env"]:
        yield {**data, "env": {a: b for a, b in data["env"].items() if a != k}}
    f = data["fault"]
    if f and isinstance(f[0], int):
        for i in range(min(f[0], 14)):
            yield {**data, "fault": [i, f[1]]}
        for m in "nx":
            if m != f[1]:
                yield {**data, "fault": [f[0], m]}
    used = {a for u in data["units"] for a in u}
    for f in data["files"]:
        if f not in used:
            yield {**data, "files": {a: b for a, b in data["files"].items() if a != f}}


def sample(data):
    return {"arguments": [a for u in data["units"] for a in u][:30], "fault": data["fault"]}


def signature(data, fail):
    return fail["msg"].split(": ", 1)[-1][:18]
