"""C08: single-precision floats."""
from vlib import cflt, targets

ID = "C08"
QUICK = (160, 60)
THOROUGH = (4000, 900)
TECHNIQUE = "property-based testing: generated float and mixed expressions, folded and at run time, against exact rational arithmetic rounded to single precision"
LEVEL_NOTE = "Expression trees over float and every integer type with all float operators, casts, implicit conversions (assignment, argument, return, initializer), variadic arguments, logical contexts; operands from every storage kind over all exponents, denormals, infinities, NaNs and signed zeros; constants including exact ties and up to 140 digits; Linux with huge and unreal samples."
RULE = "Each evaluation is one expression compiled and run. Non-trivial: it has an operator or is a constant conversion; distinct by expression and operand values."
ASSUMPTIONS = ["double is float", "conversions of out-of-range floats to integers are undefined and not generated", "NaN payloads and signs are not compared",
               "a constant with more than 112 significant digits may be rounded as if the digits beyond were zero (stated in the source)", "++, -- and compound assignment are documented as unsupported on floats"]
TG = ("linux", "huge", "unreal")


def gen(rng, idx, tier):
    t = TG[1 + idx // 20 % 2] if idx % 20 == 11 else "linux"
    env = cflt.gen_env(rng, t != "linux")
    items, size = [], 0
    while len(items) < (40 if t == "linux" else 30):
        it = cflt.gen_item(rng, env)
        items.append(it)
    return {"target": t, "env": env, "items": items}


def setup(tc):
    tc.need("lcl")
    targets.setup(tc, "linux", "huge", "unreal")


check, candidates, sample = cflt.check, cflt.candidates, cflt.sample
