"""C03: whole programs do what C requires."""
from vlib import progcheck, targets

ID = "C03"
NEEDS = ("smlrc", "smlrl")
QUICK = (6000, 60)
THOROUGH = (90000, 780)
TECHNIQUE = "property-based testing: generated terminating programs, differential against an interpreter"
LEVEL_NOTE = ("Random program trees (all statement kinds, gotos, switches with labels inside nested statements, recursion, function-pointer tables, variadic calls, shadowing), "
              "own interpreter as oracle; programs of at most ~8 functions that terminate by an explicit budget.")
RULE = ("Each evaluation is one generated program compiled, linked and run; the whole sequence of words it outputs, and final globals, is compared with the interpreter's. "
        "Non-trivial: at least 8 statements and 4 words of output; distinct by text.")
ASSUMPTIONS = ["two's complement, arithmetic >> of negative values, modulo conversion to narrower signed types"]


def setup(tc):
    targets.setup(tc, "linux")


def gen(rng, idx, tier):
    return progcheck.gen(rng, "linux", rng.choice([12, 25, 40, 60]))


check, candidates, sample = progcheck.check, progcheck.candidates, progcheck.sample
