"""C02: constants folded by the compiler have C's values in every context that needs or uses them."""
from vlib import exprcheck, targets

ID = "C02"
NEEDS = ("smlrc", "smlrl")
QUICK = (1400, 60)
THOROUGH = (30000, 780)
TECHNIQUE = "property-based testing: generated constant expressions, differential against a C99 evaluator"
LEVEL_NOTE = ("Random search over typed constant expressions in 26 contexts, 32-bit and 16-bit int (tiny model under DOSBox), independent evaluator as oracle.")
RULE = ("Each evaluation is one constant expression (literals of all bases and suffixes, character constants, sizeof, casts, all operators) in one of 26 contexts "
        "(static/automatic initializer, dimension, enumerator, case label, conditions, operand of a run-time operator, ...). Non-trivial: at least 3 nodes; distinct by expression and context.")
ASSUMPTIONS = ["two's complement, arithmetic >> of negative values, modulo conversion to narrower signed types"]


def setup(tc):
    targets.setup(tc, "linux", "tiny")


def gen(rng, idx, tier):
    ms = rng.choice([5, 9, 14, 22])
    if idx % 12 == 5:
        return exprcheck.gen(rng, "tiny", 60, True, ms)
    return exprcheck.gen(rng, "linux", 40, True, ms)


check, candidates, sample = exprcheck.check, exprcheck.candidates, exprcheck.sample
