"""L08: the linker survives any object or archive."""
import json, os, struct
from vlib import exprcheck, fuzzsrc, linkm

ID = "L08"
NEEDS = ("asan:smlrl",)
QUICK = (5000, 40)
THOROUGH = (400000, 700)
TECHNIQUE = "fuzzing: valid generated objects and archives with structure-aware corruption of ELF headers, sections, symbols, relocations, string tables and archive members, under AddressSanitizer and UBSan"
LEVEL_NOTE = "Scenarios of the linker model (all ten formats, options, response files) whose object and archive files are then damaged in 0 to 6 places; sanitizers, exit status, message, output file and CPU time as oracle."
RULE = ("Each evaluation is one link of damaged files with smlrl under ASan+UBSan: no report, no signal, exit status 0 with an executable that the format's loader accepts, or 1 with a message and no executable, within 20 s of CPU time and 32 MB of output. "
        "Non-trivial: at least one damaged place; distinct by files.")
ASSUMPTIONS = ["files over 32 MB (huge section sizes or alignments) end the run early and are not judged further"]

W32 = [0, 1, 2, 3, 4, 7, 8, 16, 0x7F, 0x80, 0xFF, 0x100, 0xFFF, 0x1000, 0x1001, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF]
W16 = [0, 1, 2, 3, 5, 0x7F, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFEFF, 0xFF00, 0xFFF1, 0xFFF2, 0xFFFE, 0xFFFF]


def val(rng, cur, bits, filelen):
    k = rng.randrange(10)
    if k < 4:
        return rng.choice(W32 if bits == 32 else W16) & ((1 << bits) - 1)
    if k < 7:
        return (cur + rng.choice([-1, 1, -1, 1, -4, 4, 8, -8, 16, 40, 1024, -1024])) & ((1 << bits) - 1)
    if k == 7:
        return (filelen + rng.randint(-64, 64)) & ((1 << bits) - 1)
    if k == 8:
        return rng.randrange(64)
    return rng.getrandbits(bits)


def elf_muts(rng, b, base, n):
    """Damaged places of the object at offset base of b (n bytes): (offset, bytes)."""
    o = b[base:base + n]
    if len(o) < 52:
        return []
    shoff, = struct.unpack_from("<I", o, 32)
    shnum, strx = struct.unpack_from("<HH", o, 48)
    sec = [struct.unpack_from("<10I", o, shoff + 40 * i) for i in range(shnum)]

    def put(off, bits):
        cur = int.from_bytes(o[off:off + bits // 8], "little")
        return (base + off, val(rng, cur, bits, n).to_bytes(bits // 8, "little"))
    k = rng.randrange(20)
    if k < 3:
        off = rng.choice([4, 5, 6, 16, 18, 20, 24, 28, 32, 32, 36, 40, 42, 44, 46, 48, 48, 50, 50])
        if off < 16:
            return [(base + off, bytes([rng.randrange(4)]))]
        return [put(off, 32 if off in (20, 24, 28, 32, 36) else 16)]
    if k < 11:
        i = rng.randrange(shnum)
        f = rng.randrange(10)
        if f == 1 and rng.random() < 0.7:
            return [(base + shoff + 40 * i + 4, struct.pack("<I", rng.choice([0, 1, 2, 3, 4, 8, 9, 10, 11])))]
        if f == 2 and rng.random() < 0.7:
            return [(base + shoff + 40 * i + 8, struct.pack("<I", rng.randrange(8)))]
        if f in (6, 7) and rng.random() < 0.7:
            return [(base + shoff + 40 * i + 4 * f, struct.pack("<I", rng.randrange(shnum + 2)))]
        return [put(shoff + 40 * i + 4 * f, 32)]
    t = {2: [], 9: [], 3: []}
    for s in sec:
        if s[1] in t and s[5]:
            t[s[1]].append(s)
    if k < 14 and t[2]:
        s = rng.choice(t[2])
        at = s[4] + 16 * rng.randrange(s[5] // 16)
        f = rng.choice([0, 4, 12, 12, 14, 14])
        return [put(at + f, 32 if f < 12 else 16)] if f != 12 else [(base + at + 12, bytes([rng.choice([0, 1, 2, 3, 4, 16, 17, 18, 19, 32, 34, 255])]))]
    if k < 17 and t[9]:
        s = rng.choice(t[9])
        at = s[4] + 8 * rng.randrange(s[5] // 8)
        j = rng.randrange(3)
        if j == 0:
            return [put(at, 32)]
        if j == 1:
            return [(base + at + 4, bytes([rng.choice([0, 1, 2, 3, 10, 20, 21, 22, 23, 255])]))]
        cur = int.from_bytes(o[at + 5:at + 8], "little")
        return [(base + at + 5, (val(rng, cur, 32, n) & 0xFFFFFF).to_bytes(3, "little"))]
    if k < 19 and t[3]:
        s = rng.choice(t[3])
        at = s[4] + (s[5] - 1 if rng.random() < 0.4 else rng.randrange(s[5]))
        return [(base + at, bytes([rng.choice([0, 65, 95, 255, rng.randrange(256)])]))]
    return [(base + rng.randrange(n), bytes([rng.randrange(256)]))]


def ar_muts(rng, b):
    at, ents = 8, []
    while at + 60 <= len(b):
        try:
            n = int(b[at + 48:at + 58])
        except ValueError:
            break
        ents.append((at, n))
        at += 60 + n + (n & 1)
    if not ents:
        return []
    at, n = rng.choice(ents)
    k = rng.randrange(12)
    if k < 3:
        v = rng.choice([0, 1, 51, 52, n - 1, n + 1, n * 2, len(b), 4294967295, 4294967296 - 60, 4294967236 - at, 4294967295 - at, 2147483648, 9999999999, 4294967294, rng.getrandbits(32)])
        return [(at + 48, (rng.choice(["%-10d", "%-10d", "%010d", "%d "]) % max(0, v))[:10].ljust(10).encode())]
    if k == 3:
        v = rng.choice([0, 1, n, n + 1, n - 52, n - 51, 4294967295, 9999999999999, rng.getrandbits(32)])
        return [(at, ("#1/%-13d" % max(0, v))[:16].encode())]
    if k == 4:
        return [(at, rng.choice([b"/               ", b"//              ", b"__.SYMDEF       ", b"/99999          ", b"\0" * 16, b"                ", b"#1/             ", b"#1/-5           "]))]
    if k == 5:
        return [(at + 58, bytes([rng.randrange(256), 10]))]
    if k == 6:
        return [(at + 48, bytes(rng.randrange(256) for _ in range(10)))]
    if k == 7:
        return [(rng.randrange(8), bytes([rng.randrange(256)]))]
    skip = 0
    nm = b[at:at + 16]
    if nm.startswith(b"#1/"):
        try:
            skip = int(nm[3:])
        except ValueError:
            pass
    if n - skip >= 52 and b[at + 60 + skip:at + 64 + skip] == b"\x7fELF":
        return elf_muts(rng, b, at + 60 + skip, n - skip)
    return [(rng.randrange(len(b)), bytes([rng.randrange(256)]))]


def gen(rng, idx, tier):
    fmt = linkm.FORMATS[idx % len(linkm.FORMATS)]
    c = linkm.gen_case(rng, fmt, nmax=4)
    if rng.random() < 0.6:
        c["map"] = True
    if rng.random() < 0.15:
        c["opts"] = c["opts"] + ["-verbose"]
    files = linkm.files_of(c)
    items = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 6])):
        f = rng.randrange(len(files))
        n, b = files[f]
        k = rng.random()
        if k < 0.05:
            items.append({"f": f, "trunc": rng.choice([0, 1, 4, 7, 8, 20, 51, 52, 67, 68, rng.randrange(len(b) + 1), max(0, len(b) - 1), max(0, len(b) - rng.randint(1, 64))])})
        elif k < 0.08:
            items.append({"f": f, "add": bytes(rng.choice([0, 10, 33, 96, rng.randrange(256)]) for _ in range(rng.randint(1, 70))).hex()})
        elif k < 0.1:
            items.append({"f": f, "copy": rng.randrange(len(files))})
        else:
            try:
                m = ar_muts(rng, b) if n.endswith(".a") else elf_muts(rng, b, 0, len(b))
            except struct.error:
                m = []
            items += [{"f": f, "o": o, "b": x.hex()} for o, x in m]
    return {"case": c, "items": items}


def damaged(data):
    files = [[n, bytearray(b)] for n, b in linkm.files_of(data["case"])]
    orig = [bytes(b) for _, b in files]
    for it in data["items"]:
        if it["f"] >= len(files):
            continue
        b = files[it["f"]][1]
        if "trunc" in it:
            del b[it["trunc"]:]
        elif "add" in it:
            b += bytes.fromhex(it["add"])
        elif "copy" in it:
            if it["copy"] < len(orig):
                b[:] = orig[it["copy"]]
        else:
            x = bytes.fromhex(it["b"])
            if it["o"] + len(x) <= len(b):
                b[it["o"]:it["o"] + len(x)] = x
    return [(n, bytes(b)) for n, b in files]


def check(tc, data, work):
    c = data["case"]
    files = damaged(data)
    names = []
    for n, b in files:
        with open(os.path.join(work, n), "wb") as f:
            f.write(b)
        names.append(n)
    a = linkm.args_of(c, "x.exe", "x.map" if c.get("map") else None)
    r, bad = fuzzsrc.sanitized(tc, "smlrl", a[:1] + names + a[1:], work, cpu=20)
    st = {"evaluations": 1, "exit": {str(r.rc): 1}, "formats": {c["fmt"]: 1},
          "nontrivial_keys": [exprcheck.hash_key(repr(files))] if data["items"] else []}
    p = os.path.join(work, "x.exe")
    if not bad and isinstance(r.rc, int) and r.rc >= 0:
        if r.rc not in (0, 1):
            bad = "exit status %s" % r.rc
        elif r.rc == 1 and not (r.err or r.out).strip():
            bad = "fails without a message"
        elif r.rc == 1 and os.path.exists(p):
            bad = "fails but leaves an executable"
        elif r.rc == 0 and not os.path.exists(p):
            bad = "succeeds without an executable"
        elif r.rc == 0:
            try:
                linkm.load(c, open(p, "rb").read(), None)
            except linkm.Bad as e:
                if "entry point" not in str(e):   # (an entry symbol in a data section, say)
                    bad = "accepts the files but no loader accepts the executable: %s" % e
    if bad:
        return {"msg": "smlrl %s: %s" % (" ".join(a[:1] + names + a[1:])[:200], bad)}, st
    return None, st


def signature(data, fail):
    m = fail["msg"]
    return m.split("|")[-1][:120] if "|" in m else m.split(": ", 1)[-1][:60]


def candidates(data):
    from vlib import linkcheck
    if not any("copy" in x for x in data["items"]):
        c = data["case"]
        for i in range(len(c["inputs"]) - 1, -1, -1):
            if any(x["f"] == i for x in data["items"]):
                continue
            d = dict(c, inputs=c["inputs"][:i] + c["inputs"][i + 1:])
            yield {"case": d, "items": [dict(x, f=x["f"] - (x["f"] > i)) for x in data["items"]]}
    for k in ("map", "stack", "origin"):
        if data["case"].get(k):
            yield {"case": dict(data["case"], **{k: None}), "items": data["items"]}
    if data["case"]["opts"]:
        yield {"case": dict(data["case"], opts=[]), "items": data["items"]}


def sample(data):
    return {"format": data["case"]["fmt"], "files": [n for n, _ in linkm.files_of(data["case"])], "damage": data["items"][:6]}
