"""C01: integer expressions computed at run time by 32-bit code have the values, types and side effects of C."""
from vlib import exprcheck, targets

ID = "C01"
NEEDS = ("smlrc", "smlrl")
QUICK = (2500, 60)
THOROUGH = (60000, 780)
TECHNIQUE = "property-based testing: generated expressions, differential against a C99 evaluator"
LEVEL_NOTE = ("Random search over typed expression trees with an independent evaluator as oracle; trusts the evaluator, nasm and the host CPU. "
              "Expressions are bounded to ~60 entries of the compiler's expression stack.")
RULE = ("Each evaluation is one generated function: 1-4 variables of random integer types in one of 26 kinds of storage, an "
        "expression of up to ~48 operators over them, and one of 13 contexts consuming it; expected values, final values of "
        "all variables and of their neighbours come from a C99 evaluator in Python. Non-trivial: at least 3 nodes; distinct by "
        "expression, context and storage.")
ASSUMPTIONS = ["two's complement, arithmetic >> of negative values, modulo conversion to narrower signed types",
               "no undefined behaviour is generated (checked by the evaluator)"]


def setup(tc):
    targets.setup(tc, "linux")


def gen(rng, idx, tier):
    return exprcheck.gen(rng, "linux", 28, maxsize=rng.choice([6, 10, 14, 22]))


check, candidates, sample = exprcheck.check, exprcheck.candidates, exprcheck.sample
