"""C14: the compiler survives any input."""
import os
from vlib import fuzzsrc, exprcheck
from vlib.core import Infra

ID = "C14"
NEEDS = ("asan:smlrc", "asan:smlrcmips")
QUICK = (3000, 30)
THOROUGH = (300000, 700)
TECHNIQUE = "fuzzing: grammar-seeded token and byte mutation of sources and options under AddressSanitizer and UBSan"
LEVEL_NOTE = "Sources of the tree and generated programs, mutated on the token and byte level (deep nesting, table exhaustion, truncation, NULs, odd newlines), with random options; sanitizers, exit status, diagnostics and CPU time as oracle."
RULE = ("Each evaluation is one compiler run on a mutated source with random options under ASan+UBSan: no report, no signal, at most 20 s of CPU, exit status 0 or 1, and an error message exactly when it is 1. "
        "Non-trivial: more than 16 bytes of source; distinct by source and options.")
ASSUMPTIONS = ["UBSan's shift and signed-overflow checks are off: constant folding uses the host's wrap-around"]

OPTS = ["-seg16", "-seg32", "-segt", "-huge", "-unreal", "-signed-char", "-unsigned-char", "-externs", "-no-externs", "-use-gp", "-label", "-label 100", "-label 2147483647", "-Wall", "-no-ppack" if False else "-Wall",
        "-nobss", "-nopp", "-I .", "-I", "-D A", "-D A=1", "-DA", "-D", "-D A=", "-D 5=3", "-D A(x)=x", "-leading-underscore", "-no-leading-underscore", "-ctor-fxn", "-ctor-fxn f", "-main main", "-stack 100", "-minstack 5", "-bogus", "-", "--", "-c",
        "-verbose", "-winstack", "-winstack 4096", "-short-wchar", "-long-wchar", "-signed-wchar", "-unsigned-wchar", "-flat16", "-flat32", "-Wmissing", "-SI .", "-D AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=1", "-I " + "d" * 300, "-D A=" + "q" * 300, "-D A=" + "1" * 6000]


def setup(tc):
    fuzzsrc.seeds(tc)
    global _SD
    _SD = fuzzsrc.seeds(tc)


_SD = []


def gen(rng, idx, tier):
    src = fuzzsrc.gen(rng, _SD)
    tool = "smlrcmips" if rng.random() < 0.15 else "smlrc"
    o = []
    if tool == "smlrc":
        o += [rng.choice(["-seg16", "-seg32", "-seg32", "-huge", "-unreal"])]
    for _ in range(rng.choice([0, 0, 1, 2])):
        o += rng.choice(OPTS).split(" ")
    args = rng.choice([["t.c", "t.asm"]] * 30 + [["t.c"], [], ["t.c", "t.asm", "x"], ["nosuch.c", "t.asm"], ["t.c", "nodir/t.asm"], ["", ""], ["t.c", ""], ["." , "t.asm"]])
    return {"tool": tool, "opts": o, "args": args, "src": src.decode("latin-1"), "h": fuzzsrc.gen(rng, _SD).decode("latin-1") if rng.random() < 0.1 else None}


def check(tc, data, work):
    src = data["src"].encode("latin-1")
    open(os.path.join(work, "t.c"), "wb").write(src)
    if data["h"] is not None:
        open(os.path.join(work, "h.h"), "wb").write(data["h"].encode("latin-1"))
    r, bad = fuzzsrc.sanitized(tc, data["tool"], data["opts"] + data["args"], work)
    st = {"evaluations": 1, "exit": {str(r.rc): 1}, "nontrivial_keys": [exprcheck.hash_key(data["src"] + repr(data["opts"]))] if len(src) > 16 else []}
    if not bad:
        has = b"Error in " in r.out + r.err or b"rror" in r.out + r.err
        if r.rc not in (0, 1):
            bad = "exit status %s" % r.rc
        elif r.rc == 1 and not has:
            bad = "fails without a message"
        elif r.rc == 0 and b"Error in \"" in r.err:
            bad = "succeeds with an error message"
    if bad:
        return {"msg": "%s %s: %s\n%s" % (data["tool"], " ".join(data["opts"] + data["args"])[:300], bad, data["src"][:1500])}, st
    return None, st


def signature(data, fail):
    m = fail["msg"].split("\n")[0]
    return m.split("|")[-1][:120] if "|" in m else m.split(": ", 1)[-1][:60]


def candidates(data):
    if data["h"]:
        yield {**data, "h": None}
    for i in range(len(data["opts"])):
        yield {**data, "opts": data["opts"][:i] + data["opts"][i + 1:]}
    for b in fuzzsrc.halves(data["src"].encode("latin-1")):
        if len(b) < len(data["src"]):
            yield {**data, "src": b.decode("latin-1")}


def sample(data):
    return {"tool": data["tool"], "options": data["opts"] + data["args"], "source": data["src"][:300]}
