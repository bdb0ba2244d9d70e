"""L01: relocated fields."""
import json
from vlib import core, exprcheck, linkm, linkcheck
from vlib.core import Infra

ID = "L01"
NEEDS = ("smlrl",)
QUICK = (4000, 40)
THOROUGH = (120000, 600)
TECHNIQUE = "property-based testing: generated ELF objects and archives linked into every format; fields in the loaded image against S+A-P"
LEVEL_NOTE = "Objects are written by the harness (several symbol-table and header layouts), sections up to 30 KB with fields around the linker's buffer boundaries, addends of any value, local, global, section, null and start/stop symbols, all ten formats."
RULE = ("Each evaluation is one link; every relocated field of the loaded image must hold addend plus symbol address, minus the field's address where PC-relative, modulo its width; addresses of pieces come from unique markers in their contents. "
        "Non-trivial: at least 5 fields checked; distinct by scenario.")
ASSUMPTIONS = ["16-bit fields hold their value modulo 65536 (doc/smlrl.md leaves mixing 16-bit and 32-bit code to the user)"]
CATS = ("reloc", "startstop", "load", "content")


def gen(rng, idx, tier):
    return {"case": linkm.gen_case(rng, linkm.FORMATS[idx % len(linkm.FORMATS)])}


def check(tc, data, work):
    f, st, j = linkcheck.judge_one(tc, data["case"], work, CATS)
    if st.get("rejected") or st.get("toobig"):
        return f, {"evaluations": 0, "links": st}
    n = st.get("fields", 0)
    return f, {"evaluations": 1, "links": st, "formats": {data["case"]["fmt"]: 1},
               "nontrivial_keys": [exprcheck.hash_key(json.dumps(data["case"]))] if n >= 5 else []}


candidates = linkcheck.candidates


def signature(data, fail):
    return fail.get("cat")


sample = linkcheck.sample
