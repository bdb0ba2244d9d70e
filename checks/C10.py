"""C10: expressions computed by huge- and unreal-model code have the values and side effects of C."""
from vlib import exprcheck, farcheck, memcheck, progcheck, targets

ID = "C10"
NEEDS = ("tools",)
QUICK = (240, 60)
THOROUGH = (8000, 780)
W = {"rd": 4, "wr": 4, "as": 3, "pa": 4, "cp": 4, "fn": 3, "by": 2, "pp": 2, "oa": 2, "pq": 2, "pf": 2, "ca": 2, "sz": 1}
T = ["huge", "unreal"]
TECHNIQUE = "property-based testing: generated expressions run in an emulator, differential against a C99 evaluator"
LEVEL_NOTE = "Random search over typed expression trees, storage kinds and contexts, programs, shaped data and large objects; trusts the evaluator, the assembler and the emulator."
RULE = ("Each evaluation is one generated function (variables of random types in one of 26 kinds of storage, an expression, one of 13 contexts consuming it) "
        "or one constant expression, or one whole generated program (as in C03), or one unit over shaped data (as in C04-C07), or copies, indexing and pointer walks over objects of up to 300 KB, run on the target; expected words come from a C99 evaluator. Non-trivial: at least 3 nodes; distinct by expression, context and storage.")
ASSUMPTIONS = ["two's complement, arithmetic >> of negative values, modulo conversion to narrower signed types"]


def setup(tc):
    targets.setup(tc, *T)


def gen(rng, idx, tier):
    t = T[(idx // 4) % len(T)]
    if idx % 8 == 3:
        return farcheck.gen(rng, t, rng.choice([1, 3]))
    if idx % 8 == 7:
        return memcheck.gen(rng, t, W, 6)
    if idx % 4 == 1:
        return progcheck.gen(rng, t, rng.choice([12, 25, 40, 60]))
    return exprcheck.gen(rng, t, 32, idx % 4 == 2 and idx % 3 == 0, rng.choice([6, 10, 14, 20]))


def of(data):
    return {"prog": progcheck, "far": farcheck, "mem": memcheck}.get(data.get("kind"), exprcheck)


def check(tc, data, work):
    return of(data).check(tc, data, work)


def candidates(data):
    return of(data).candidates(data)


def sample(data):
    return of(data).sample(data)
