"""L06: relocation tables."""
import json, struct
from vlib import exprcheck, linkm, linkcheck
from vlib.linkm import ABS32, ABS16, PC32, PC16, WIDTH

ID = "L06"
NEEDS = ("smlrl",)
QUICK = (4000, 40)
THOROUGH = (120000, 600)
TECHNIQUE = "property-based testing: generated objects linked into relocatable formats; relocation tables applied by the harness against a link at the other address and against the set of absolute fields"
LEVEL_NOTE = "PE: the tables of a link at one image base are applied for another and the image compared with a link at that base. a.out: every absolute and null-symbol PC-relative field, and nothing else, has a record. Unreal: .relod lists exactly the absolute 32-bit fields. Flat, ELF and Mach-O: links at two origins differ exactly in the absolute fields, by the distance."
RULE = ("Each evaluation is one scenario in pe, aout, unreal, flat32, elf or mach, judged as above. Non-trivial: at least 5 absolute fields in 2 sections; distinct by scenario.")
ASSUMPTIONS = ["the huge model's tables are made by the compiler, not the linker: C-level checks run huge programs in DOSBox", "sections .dll_import* and .dll_iat* of PE hold RVAs and take no base relocations (documented)"]


def gen(rng, idx, tier):
    fmt = ["pe", "aout", "unreal", "pe", "aout", "unreal", "flat32", "elf", "mach"][idx % 9]
    c = linkm.gen_case(rng, fmt)
    c["opts"] = [x for x in c["opts"] if x == "-nobss"]
    c["map"] = False
    d = {"case": c}
    if fmt in ("pe", "flat32", "elf", "mach"):
        d["bases"] = [0x10000 * rng.randint(1, 0x7FFF), 0x10000 * rng.randint(1, 0x7FFF)]
        if fmt == "flat32" and rng.random() < 0.5:
            d["bases"] = [4096 * rng.randint(0, 9999), 4096 * rng.randint(0, 9999)]
        c["origin"] = None
    return d


def absolute(j, pred):
    """Addresses and widths of the fields that move with the image."""
    out = {}
    for p, k, off, a, ty, ref, add in j.fields():
        if ty in (ABS32, ABS16) and ref[0] != "0" and pred(j.sec(p)):
            out[a] = WIDTH[ty]
        elif ty in (PC32, PC16) and ref[0] == "0":
            out[a] = -WIDTH[ty]
    return out


def check(tc, data, work):
    case = data["case"]
    fmt = case["fmt"]
    c = dict(case)
    if data.get("bases"):
        c["origin"] = data["bases"][0]
    f, st, j = linkcheck.judge_one(tc, c, work, ("load", "content", "reloc"))
    if f:
        return f, {"evaluations": 1}
    if j is None:
        return None, {"evaluations": 0, "links": st}
    # (a piece of a few bytes whose place cannot be told hides its fields)
    if any(s["rels"] and s["f"] & linkm.ALLOC and s["t"] == linkm.PROGBITS and (i, k) not in j.addr
           for i in j.m.needed for k, s in enumerate(j.m.objs[i]["secs"])):
        return None, {"evaluations": 0, "links": {"unlocated": 1}}
    fields = absolute(j, lambda s: not j.dll(s))
    st2 = {"evaluations": 1, "formats": {fmt: 1}, "fields": len(fields)}
    if len(fields) >= 5:
        st2["nontrivial_keys"] = [exprcheck.hash_key(json.dumps(data))]

    def bad(msg, cat):
        return {"msg": "-%s: %s" % (fmt, msg), "cat": cat}, st2
    if fmt == "aout":
        got = {}
        for a, pcrel, w, sym, ext in j.img.x["rel"]:
            if a in got:
                return bad("two records for the field at 0x%x" % a, "twice")
            got[a] = -w if pcrel else w
        if got != fields:
            d = sorted(set(got.items()) ^ set(fields.items()))[0]
            return bad("field at 0x%x (width %d): %s" % (d[0], d[1], "in the table but does not move" if d[0] in got and fields.get(d[0]) != got[d[0]] else "not in the table"), "set")
        return None, st2
    if fmt == "unreal":
        b = j.relod()
        if not b:
            return None, {"evaluations": 0, "links": {"norelod": 1}}
        t = j.img.read("", b[0], b[1] - b[0])
        if t is None or len(t) % 4:
            return bad("__start__relod and __stop__relod are 0x%x and 0x%x" % b, "bounds")
        tab = list(struct.unpack("<%dI" % (len(t) // 4), t))
        want = {a for a, w in fields.items() if w == 4}
        if len(set(tab)) != len(tab):
            return bad("the table lists a field twice", "twice")
        if set(tab) != want:
            d = sorted(set(tab) ^ want)[0]
            return bad("field at 0x%x: %s" % (d, "in the table but does not move" if d in tab else "not in the table"), "set")
        return None, st2
    rel = j.img.x.get("rel")
    if fmt == "pe":
        if len(set(rel)) != len(rel):
            return bad("the table lists a field twice", "twice")
        if set(rel) != set(fields):
            d = sorted(set(rel) ^ set(fields))[0]
            return bad("field at 0x%x: %s" % (d, "in the table but does not move" if d in rel else "not in the table"), "set")
    # link at the other base
    c2 = dict(case, origin=data["bases"][1])
    f, _, j2 = linkcheck.judge_one(tc, c2, work, ("load",), "y")
    if f:
        return f, st2
    if j2 is None:
        return None, st2
    d = j2.img.base - j.img.base
    s1 = [s for s in j.img.segs if s.name != ".reloc"]
    s2 = [s for s in j2.img.segs if s.name != ".reloc"]
    if fmt == "flat32":
        d = data["bases"][1] - data["bases"][0]
    if [(s.addr + d, s.memsz, len(s.data)) for s in s1] != [(s.addr, s.memsz, len(s.data)) for s in s2]:
        return bad("the segments of the link at the other base are elsewhere", "segs")
    if fmt == "mach":
        for s in s1 + s2:
            if s.name == "__TEXT":
                n = 28 + struct.unpack_from("<I", s.data, 20)[0]
                s.data[:n] = b"\0" * n
    for s, t in zip(s1, s2):
        b = bytearray(s.data)
        for a, w in (fields.items() if fmt != "pe" else ((x, 4) for x in rel)):
            if s.addr <= a < s.addr + len(b):
                o = a - s.addr
                v = int.from_bytes(b[o:o + abs(w)], "little") + (d if w > 0 else -d)
                b[o:o + abs(w)] = (v & ((1 << 8 * abs(w)) - 1)).to_bytes(abs(w), "little")
        if b != t.data:
            k = next(i for i in range(len(b)) if b[i] != t.data[i])
            return bad("relocated from base 0x%x to 0x%x, the byte at 0x%x is 0x%02x; linked there it is 0x%02x" % (data["bases"][0], data["bases"][1], t.addr + k, b[k], t.data[k]), "moved")
    return None, st2


candidates = linkcheck.candidates
sample = linkcheck.sample


def signature(data, fail):
    return fail.get("cat")
