"""D04: arguments reach the tools unaltered."""
import json
from vlib import drv, drvgen, exprcheck

ID = "D04"
NEEDS = ("smlrcc",)
QUICK = (2500, 45)
THOROUGH = (100000, 600)
TECHNIQUE = "property-based testing: generated driver command lines run with stand-in tools that record their arguments, compared with a reference model of the driver"
LEVEL_NOTE = "Random command lines over all options, targets, input kinds, response files and environments; half of them with spaces, quotes, backslashes, shell metacharacters and control characters in file names, macros, include paths and option operands."
RULE = ("Each evaluation is one driver command whose tools are stand-ins that record their argument vectors and create their output. Oracle: the model of doc/smlrcc.md gives the sequence of tools; each must receive exactly the expected arguments (order of unrelated options is free), "
        "the exit status is 0 and afterwards there are exactly the inputs and the requested outputs. Non-trivial: at least one argument with a special character or a response file; distinct by command.")
ASSUMPTIONS = ["tokens in @files are separated by white space and cannot contain any (documented)", "file names do not start with - or @"]
SPECIAL = set(" \t\n\"'\\$`;&|<>()*?[]{}~#!%^=\x7f\xe9")


def gen(rng, idx, tier):
    d = drvgen.command(rng, special=idx % 4 != 0)
    if rng.random() < 0.3:
        d["args"], d["rsp"] = drvgen.respond(rng, d)
    if rng.random() < 0.04:
        d["units"].insert(rng.randint(0, len(d["units"])), [rng.choice(["-foo", "-o", "-", "--", "-e", "-D", "-C", "-l", "-map", "-linuxx"])])
        d.pop("args", None)
    return d


def setup(tc):
    drv.setup_fakes(tc)


def check(tc, data, work):
    w, args, env, p = drvgen.prepare(tc, data, work)
    before = set(drv.tree(w))
    st = {"evaluations": 1, "targets": {data["target"]: 1}}
    if any(SPECIAL & set(a) for a in args) or data.get("rsp"):
        st["nontrivial_keys"] = [exprcheck.hash_key(json.dumps(data, sort_keys=True))]
    r, log = drv.run_fake(tc, args, env, w)
    after = set(drv.tree(w))

    def bad(m):
        return {"msg": "smlrcc %r: %s" % (args, m)}, st
    if p is None or p.badtype is not None:
        if r.rc == 0:
            return bad("succeeds")
        for i, got in enumerate(log):
            e = drv.units_ok(p.steps[i], got) if p and i < len(p.steps) else "runs %r" % got[:4]
            if e:
                return bad(e)
        return None, {**st, "rejected": 1}
    if r.rc != 0:
        return bad("exit status %s: %r" % (r.rc, (r.out + r.err)[-200:]))
    if len(log) < len(p.steps):
        return bad("runs %d tools instead of %d" % (len(log), len(p.steps)))
    for s, got in zip(p.steps, log):
        e = drv.units_ok(s, got)
        if e:
            return bad(e)
    if len(log) > len(p.steps):
        return bad("also runs %r" % log[len(p.steps)][:6])
    import os
    want = {os.path.normpath(x) for x in before} | {os.path.normpath(x) for x in p.outs}
    if after != want:
        return bad("afterwards there are %r, missing %r" % (sorted(after - want)[:4], sorted(want - after)[:4]))
    return None, st


def candidates(data):
    args = data.get("args")
    if args is None:
        for i in range(len(data["units"])):
            yield {**data, "units": data["units"][:i] + data["units"][i + 1:]}
    else:
        d = {k: v for k, v in data.items() if k not in ("args", "rsp")}
        yield d
        for i in range(len(args)):
            yield {**data, "args": args[:i] + args[i + 1:]}
        for f, t in data["rsp"].items():
            k = t.split()
            for i in range(len(k)):
                yield {**data, "rsp": {**data["rsp"], f: " ".join(k[:i] + k[i + 1:])}}
    for k in data["env"]:
        yield {**data, "env": {a: b for a, b in data["env"].items() if a != k}}
    used = {a for u in data["units"] for a in u}
    extra = [f for f in data["files"] if f not in used]
    for f in extra:
        yield {**data, "files": {a: b for a, b in data["files"].items() if a != f}}
    if args is None:
        for i, u in enumerate(data["units"]):
            for j, a in enumerate(u):
                for k in range(len(a)):
                    if k > 0 or a[0] != "-":
                        b = a[:k] + a[k + 1:]
                        if b and b[0] in "-@" and a[0] not in "-@":
                            continue
                        f = data["files"]
                        if a in f:
                            if not b or b in f:
                                continue
                            f = {(b if x == a else x): y for x, y in f.items()}
                        yield {**data, "files": f, "units": data["units"][:i] + [u[:j] + [b] + u[j + 1:]] + data["units"][i + 1:]}


def sample(data):
    return {"arguments": (data.get("args") or [a for u in data["units"] for a in u])[:30], "response_files": data.get("rsp") or {}, "environment": data["env"]}


def signature(data, fail):
    return "x"
