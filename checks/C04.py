"""C04: sizes, alignment, offsets and strides, checked on generated data shapes."""
from vlib import memcheck, targets

ID = "C04"
NEEDS = ("smlrc", "smlrl", "smlrcmips")
QUICK = (2400, 60)
THOROUGH = (40000, 780)
W = {"sz": 4, "of": 8, "st": 4, "wr": 1, "by": 2}
TECHNIQUE = "property-based testing: generated data shapes and operations, differential against a byte-level memory model"
LEVEL_NOTE = "Random aggregates, objects and access paths; own layout and memory model as oracle; 32-bit x86, plus MIPS and 16-bit samples."
RULE = ("Each evaluation is one unit: up to 6 generated structs/unions, up to ~12 objects in 8 kinds of storage with generated initializers, and a sequence of operations chosen "
        "so that none is undefined; every result and the final content of every object is compared with the model. Non-trivial: at least 5 words compared; distinct by types and operations.")
ASSUMPTIONS = ["natural alignment up to 4, little endian", "bytes C leaves unspecified (padding, other union members) are not compared"]
KW = dict(nstruct=6, nobj=8, nops=30, maxmem=7)


def setup(tc):
    targets.setup(tc, "linux", "mips", "tiny", "small")


def gen(rng, idx, tier):
    t = "mips" if idx % 8 == 7 else rng.choice(["tiny", "small"]) if idx % 40 == 13 else "linux"
    kw = dict(KW, pack=False) if t == "mips" else KW
    return memcheck.gen(rng, t, W, 3, **kw)


check, candidates, sample = memcheck.check, memcheck.candidates, memcheck.sample
