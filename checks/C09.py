"""C09: expressions computed by 16-bit tiny- and small-model code for DOS have the values and side effects of C."""
from vlib import exprcheck, progcheck, targets

ID = "C09"
NEEDS = ("smlrc", "smlrl",)
QUICK = (400, 60)
THOROUGH = (8000, 780)
T = ["tiny", "small"]
TECHNIQUE = "property-based testing: generated expressions run in an emulator, differential against a C99 evaluator"
LEVEL_NOTE = "Random search over typed expression trees, storage kinds and contexts; trusts the evaluator, the assembler and the emulator."
RULE = ("Each evaluation is one generated function (variables of random types in one of 26 kinds of storage, an expression, one of 13 contexts consuming it) "
        "or one constant expression, or one whole generated program (as in C03), run on the target; expected words come from a C99 evaluator. Non-trivial: at least 3 nodes; distinct by expression, context and storage.")
ASSUMPTIONS = ["two's complement, arithmetic >> of negative values, modulo conversion to narrower signed types"]


def setup(tc):
    targets.setup(tc, *T)


def gen(rng, idx, tier):
    t = T[(idx // 4) % len(T)]
    if idx % 4 == 1:
        return progcheck.gen(rng, t, rng.choice([12, 25, 40, 60]))
    return exprcheck.gen(rng, t, 32, idx % 4 == 2 and idx % 3 == 0, rng.choice([6, 10, 14, 20]))


def of(data):
    return progcheck if data.get("kind") == "prog" else exprcheck


def check(tc, data, work):
    return of(data).check(tc, data, work)


def candidates(data):
    return of(data).candidates(data)


def sample(data):
    return of(data).sample(data)
