"""L05: merging, order, alignment, bounds, bss, map."""
import json
from vlib import exprcheck, linkm, linkcheck

ID = "L05"
NEEDS = ("smlrl",)
QUICK = (4000, 40)
THOROUGH = (120000, 600)
TECHNIQUE = "property-based testing: generated ELF objects linked into every format; layout of the loaded image and the map against the documented rules"
LEVEL_NOTE = "Up to 7 objects with up to 5 sections each, of sizes 0 to 30 KB and alignments 0 to 4096, names from several pools per class, start/stop symbols of sections and of all code/data/stack, -nobss, -origin, -stack; all ten formats."
RULE = ("Each evaluation is one link; pieces are found by markers in the loaded image, uninitialized ones by pointers: one section's pieces in input order with minimal padding and the requested alignment (capped as documented), sections in the documented order, "
        "start/stop symbols at the bounds, uninitialized data zero, and the map's sections, addresses and file offsets true. Non-trivial: at least 4 pieces and one start/stop symbol or map entry; distinct by scenario.")
ASSUMPTIONS = ["the order of sections is by doc/smlrl.md (.text, other code, read-only, writable with .dll_* first, uninitialized; by name within a class)"]
CATS = ("layout", "startstop", "map", "content", "load")


def gen(rng, idx, tier):
    return {"case": linkm.gen_case(rng, linkm.FORMATS[idx % len(linkm.FORMATS)], "layout")}


def check(tc, data, work):
    f, st, j = linkcheck.judge_one(tc, data["case"], work, CATS)
    if st.get("rejected") or st.get("toobig"):
        return f, {"evaluations": 0, "links": st}
    ok = st.get("pieces", 0) >= 4 and st.get("startstop", 0) + st.get("map", 0) > 0
    return f, {"evaluations": 1, "links": st, "formats": {data["case"]["fmt"]: 1}, "nontrivial_keys": [exprcheck.hash_key(json.dumps(data["case"]))] if ok else []}


candidates = linkcheck.candidates
sample = linkcheck.sample


def signature(data, fail):
    return fail.get("cat")
