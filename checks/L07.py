"""L07: PE import tables."""
import json, os, random, re, struct
from vlib import core, exprcheck, linkm, linkcheck

ID = "L07"
NEEDS = ("smlrl", "lcw")
QUICK = (1200, 60)
THOROUGH = (40000, 700)
TECHNIQUE = "property-based testing: generated import sets linked by the tree's linker and library, decoded and bound by an independent loader"
LEVEL_NOTE = "Random sets of DLLs and functions used from several modules, laid out the way the library does it (one archive member per function), as one hand-written table, and with the real library's imports, at random image bases, also after rebasing."
RULE = ("Each evaluation is one link. Oracle: a loader of the harness walks the import directory; it must list exactly the DLLs and functions used by the needed modules, each once, with terminators, the lookup and address tables equal, both directories covering their tables, "
        "no relocation inside them; and every reference in the program to __imp__F must be the address of the slot bound to F, also when the image is loaded elsewhere. Non-trivial: at least 3 functions; distinct by case.")
ASSUMPTIONS = ["nasm is correct", "no DLL name of a program is another one followed by characters before '_' (the library's section naming)", "imports by name (the documented example), not by ordinal"]
ALPHA = "abcdefghijklmnopqrstuvwxyz"
_real = {}


def real_imports(tc):
    """{function: dll} of lcw.a's import modules"""
    if tc.lib not in _real:
        b = open(tc.lib + "/lcw.a", "rb").read()
        names = {m.decode() for m in re.findall(rb"\0__imp__(\w+)\0", b)}
        _real[tc.lib] = sorted(names)
    return _real[tc.lib]


def gen(rng, idx, tier):
    sch = "ABC"[idx % 3]
    d = {"scheme": sch, "opts": [], "seed": rng.getrandbits(30)}
    if rng.random() < 0.4:
        d["opts"] += ["-norel"]
    if rng.random() < 0.3:
        d["opts"] += ["-nobss"]
    d["origin"] = rng.choice([None, None, 0x400000, 0x10000, 0x7F0000, 0x10000000, 0x80000000, 0xBFFF0000])
    names = set()
    dlls = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        n = "".join(rng.choice(ALPHA) for _ in range(rng.randint(4, 9)))
        if any(n[:4] == x[:4] for x in names):
            continue
        names.add(n)
        fns = []
        for k in range(rng.choice([1, 2, 3, 5, 8])):
            f = rng.choice(["F%d", "GetSomethingA%d", "x%d", "A_rather_long_function_name%d"]) % k + n[:3]
            fns.append(f)
        dlls.append([n, fns, rng.choice([".dll", ".dll", ".DLL", ".drv", ""])])
    d["dlls"] = dlls
    allf = [[x[0], f] for x in dlls for f in x[1]]
    if sch == "C":
        d["nreal"] = [rng.random() for _ in range(rng.choice([1, 2, 3, 6, 12, 40]))]
        d["dlls"] = []
        allf = [["", i] for i in range(len(d["nreal"]))]
    mods = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        use = [u for u in allf if rng.random() < 0.5] or [rng.choice(allf)]
        mods.append({"use": [list(u) + [rng.choice(["text", "data", "rodata"])] for u in use], "bss": rng.choice([0, 0, 10, 5000]), "data": rng.choice([0, 4, 4096, 9000])})
    d["mods"] = mods
    d["pad"] = rng.choice([0, 0, 100, 4090, 5000])
    d["ar"] = rng.random() < 0.7
    d["arfirst"] = rng.random() < 0.3
    d["merge"] = rng.random() < 0.3
    return d


def nasm(work, name, text):
    s, o = os.path.join(work, name + ".asm"), os.path.join(work, name + ".o")
    with open(s, "w") as f:
        f.write("bits 32\n" + text)
    r = core.run(["nasm", "-f", "elf", s, "-o", o], cwd=work, cpu=10)
    if r.rc != 0:
        raise core.Infra("nasm: %s" % r.err[-300:])
    return o


def mark(k, j):
    return b"<%03d:%04d>" % (k, j)


def build(tc, data, work):
    """-> (objects, library members, use per module [[name..]], dll of function)"""
    sch = data["scheme"]
    dllof, objs, lib = {}, [], []
    if sch == "C":
        real = real_imports(tc)
        pick = [real[int(x * len(real))] for x in data["nreal"]]
    uses = []
    for k, m in enumerate(data["mods"]):
        t, u = "", []
        for d, f, sec in m["use"]:
            fn = pick[f] if sch == "C" else f
            t += {"text": "section .text\n", "data": "section .data\n", "rodata": "section .rodata align=1\n"}[sec]
            t += 'db "%s"\n\tdd __imp__%s\n' % (mark(k, len(u)).decode(), fn)
            u.append(fn)
        ext = "".join("extern __imp__%s\n" % f for f in sorted(set(u)))
        if k == 0:
            ext += "section .text\nglobal __start\n__start: ret\n" + "".join("extern mod%d\n\tdd mod%d\n" % (i, i) for i in range(1, len(data["mods"])))
            if sch == "A":
                ext += "extern __dll_imports\n\tdd __dll_imports\n"
        else:
            ext += "section .text\nglobal mod%d\nmod%d:\n\tnop\n" % (k, k)
        t = ext + t + "section .data\n\ttimes %d db 0x5A\nsection .bss\n\tresb %d\n" % (m["data"], m["bss"])
        objs.append(nasm(work, "m%d" % k, t))
        uses.append(u)
    if sch == "A":
        r = random.Random(data["seed"])
        t = "section .dll_imports align=4 write\nglobal __dll_imports\n"
        if data["pad"]:
            t += "\ttimes %d db 0xA5\n\talign 4, db 0xA5\n" % data["pad"]
        t += "__dll_imports:\n"
        for i, (n, fns, ext) in enumerate(data["dlls"]):
            t += "\tdd h%d, 0, 0, n%d, i%d\n" % (i, i, i)
        t += "\ttimes 5 dd 0\nglobal __dll_imports_end\n"
        parts = []
        for i, (n, fns, ext) in enumerate(data["dlls"]):
            parts.append("\talign 4, db 0\nh%d:\n" % i + "".join("\tdd s_%s\n" % f for f in fns) + "\tdd 0\n")
            parts.append('n%d: db "%s", 0\n' % (i, n + ext))
            parts += ['\talign 2, db 0\ns_%s: db 0, 0, "%s", 0\n' % (f, f) for f in fns]
        r.shuffle(parts)
        t += "".join(parts) + "__dll_imports_end:\n"
        t += "section .dll_iat align=4 write\nglobal __dll_iats\n__dll_iats:\n"
        for i, (n, fns, ext) in enumerate(data["dlls"]):
            t += "i%d:\n" % i + "".join("global __imp__%s\n__imp__%s: dd s_%s\n" % (f, f, f) for f in fns) + "\tdd 0\n"
            for f in fns:
                dllof[f] = n + ext
        t += "global __dll_iats_end\n__dll_iats_end:\n"
        lib.append(("imports.o", nasm(work, "imports", t)))
    if sch == "B":
        lib.append(("dimports.o", nasm(work, "dimports", """section .dll_import write align=4
\tdd 0
\tglobal __dll_imports
__dll_imports:
section .dll_import1 write align=4
\tdd 0, 0, 0, 0, 0
section .dll_imports_end write align=4
\tglobal __dll_imports_end
__dll_imports_end: dd 0
section .dll_iat write align=4
\tdd 0
\tglobal __dll_iats
__dll_iats:
section .dll_iats_end write align=4
\tglobal __dll_iats_end
__dll_iats_end: dd 0
""")))
        for n, fns, ext in data["dlls"]:
            lib.append((n + ".o", nasm(work, "dll_" + n, """section .dll_import0_%(n)s write align=4
\textern __start__dll_import2_%(n)s
\textern __start__dll_iat2_%(n)s
\tdd __start__dll_import2_%(n)s, 0, 0, __%(n)s_dll__, __start__dll_iat2_%(n)s
section .dll_import2_%(n)s_trailer write align=4
\tdd 0
section .dll_import4_%(n)s write align=1
\tglobal __%(n)s_dll__
__%(n)s_dll__: db "%(n)s%(e)s", 0
section .dll_iat2_%(n)s_trailer write align=4
\tdd 0
section .data
\textern __dll_imports
\tdd __dll_imports
""" % {"n": n, "e": ext})))
            groups = [fns] if data["merge"] else [[f] for f in fns]
            for g in groups:
                t = "extern __%s_dll__\n" % n
                for f in g:
                    t += """section .dll_import2_%(n)s write align=4
\tdd _hint_%(f)s
section .dll_import3_%(n)s write align=2
_hint_%(f)s: db 0, 0, "%(f)s", 0
\talign 2, db 0
section .dll_iat2_%(n)s write align=4
\tglobal __imp__%(f)s
__imp__%(f)s: dd _hint_%(f)s
section .data
\tdd __%(n)s_dll__
""" % {"n": n, "f": f}
                    dllof[f] = n + ext
                lib.append((g[0] + ".o", nasm(work, "f_" + g[0], t)))
        random.Random(data["seed"]).shuffle(lib)
    return objs, lib, uses, dllof


def imports(img, bias=0):
    """Walks the import directory as a loader does. -> [(dll, [(name, slot address)])]"""
    base = img.base + bias

    def rd(rva, n):
        b = img.read("", img.base + rva, n)
        linkm._need(b is not None and len(b) == n, "import data at RVA %x lies outside the image" % rva)
        return b

    def text(rva):
        s = b""
        while True:
            c = rd(rva + len(s), 1)
            if c == b"\0":
                return s.decode("latin-1")
            linkm._need(0x20 < c[0] < 0x7F and len(s) < 300, "no name at RVA %x" % rva)
            s += c
    out = []
    va, sz = img.x["dirs"][1]
    if not va:
        return out
    p = va
    while True:
        oft, ts, fc, nm, ft = struct.unpack("<5I", rd(p, 20))
        if not nm and not ft and not oft:
            break
        linkm._need(oft and nm and ft, "import descriptor at %x is incomplete" % p)
        linkm._need(ts == 0 and fc == 0, "import descriptor at %x: stamp or forwarder" % p)
        fns, k = [], 0
        while True:
            a, b = struct.unpack("<I", rd(oft + 4 * k, 4))[0], struct.unpack("<I", rd(ft + 4 * k, 4))[0]
            linkm._need(a == b, "%s: lookup entry %d is %x, address table has %x" % (text(nm), k, a, b))
            if not a:
                break
            linkm._need(not a & 0x80000000, "ordinal")
            fns.append((text(a + 2), ft + 4 * k))
            k += 1
        linkm._need(fns, "%s has no functions" % text(nm))
        out.append((text(nm), fns))
        p += 20
        linkm._need(len(out) < 100, "the import directory has no end")
    img.x["impend"] = p + 20
    return out


def check(tc, data, work):
    objs, lib, uses, dllof = build(tc, data, work)
    sch = data["scheme"]
    args = [tc.bin + "/smlrl", "-pe", "-o", "x.exe"] + data["opts"]
    if data["origin"] is not None:
        args += ["-origin", str(data["origin"])]
    names = [os.path.basename(o) for o in objs]
    if sch == "C":
        libn = [tc.lib + "/lcw.a"]
    elif data["ar"]:
        with open(work + "/lib.a", "wb") as f:
            f.write(linkm.write_ar([(n, open(o, "rb").read()) for n, o in lib], "gnu"))
        libn = ["lib.a"]
    else:
        libn = [os.path.basename(o) for _, o in lib]
    args += libn + names if data["arfirst"] and sch != "C" else names + libn
    r = core.run(args, cwd=work, cpu=10)
    st = {"evaluations": 1, "schemes": {sch: 1}}

    def bad(m):
        return {"msg": "scheme %s: %s" % (sch, m)}, st
    if r.rc != 0 or not os.path.exists(work + "/x.exe"):
        return bad("smlrl fails: rc=%s %s" % (r.rc, (r.out + r.err)[-300:]))
    b = open(work + "/x.exe", "rb").read()
    try:
        img = linkm.load_pe(b)
        imp = imports(img)
    except linkm.Bad as e:
        return bad(str(e))
    used = {f for u in uses for f in u}
    if sch == "A":
        want = {(n + e).lower(): sorted(f) for n, f, e in data["dlls"]}
    elif sch == "C":
        want = {"kernel32.dll": sorted(used)}
    else:
        want = {}
        for n, fns, e in data["dlls"]:
            fs = [f for f in fns if f in used]
            if fs:
                want[(n + e).lower()] = sorted(fns if data["merge"] else fs)
    got = [(d.lower(), sorted(f for f, _ in fl)) for d, fl in imp]
    if sorted(got) != sorted(want.items()):
        if sch != "C":
            return bad("the import table lists %r instead of %r" % (got, sorted(want.items())))
        # other DLLs of the real library are fine, where they hold what is used
        flat = sorted(f for _, fl in got for f in fl)
        if flat != sorted(used) or len({d for d, _ in got}) != len(got):
            return bad("the import table lists %r instead of %r" % (flat, sorted(used)))
    # directories cover the tables
    va, sz = img.x["dirs"][1]
    if not (va and va + sz >= img.x["impend"]):
        return bad("the import directory is %x bytes at %x, its descriptors end at %x" % (sz, va, img.x["impend"]))
    slots = {}
    for d, fl in imp:
        for f, s in fl:
            if f in slots:
                return bad("%s is imported twice" % f)
            slots[f] = s
    va, sz = img.x["dirs"][12]
    if slots and not (va <= min(slots.values()) and max(slots.values()) + 4 <= va + sz):
        return bad("the IAT directory %x..%x does not cover slots %x..%x" % (va, va + sz, min(slots.values()), max(slots.values())))
    for s in slots.values():
        g = img.seg_at("", img.base + s)
        if not g or not g.perm & 2:
            return bad("the slot at %x is not writable" % s)
    rels = set(img.x["rel"])
    for s in slots.values():
        for k in range(-3, 4):
            if img.base + s + k in rels:
                return bad("a base relocation changes the slot at RVA %x" % s)
    # every reference
    refs = 0
    for k, u in enumerate(uses):
        for j, f in enumerate(u):
            mk = mark(k, j)
            at = [g.addr + g.data.find(mk) for g in img.segs if mk in g.data]
            if len(at) != 1:
                return bad("module %d's reference to %s occurs %d times in the image" % (k, f, len(at)))
            v = linkm.u32(img.read("", at[0] + len(mk), 4), 0)
            if v != (img.base + slots[f]) & 0xFFFFFFFF:
                return bad("__imp__%s is %x, %s's slot is at %x" % (f, v, f, img.base + slots[f]))
            if "-norel" not in data["opts"] and at[0] + len(mk) not in rels:
                return bad("the reference to __imp__%s at %x has no base relocation" % (f, at[0] + len(mk)))
            refs += 1
    # loaded elsewhere: whatever is relocated, the tables must still be the same
    if "-norel" not in data["opts"]:
        delta = 0x1230000
        for g in img.segs:
            g.data = bytearray(g.data)
        for a in rels:
            for g in img.segs:
                if g.addr <= a and a + 4 <= g.addr + len(g.data):
                    o = a - g.addr
                    g.data[o:o + 4] = struct.pack("<I", (linkm.u32(g.data, o) + delta) & 0xFFFFFFFF)
        for g in img.segs:
            g.data = bytes(g.data)
        try:
            if imports(img) != imp:
                return bad("the import table is another one after rebasing")
        except linkm.Bad as e:
            return bad("after rebasing: %s" % e)
    st["references"] = refs
    if len(slots) >= 3:
        st["nontrivial_keys"] = [exprcheck.hash_key(json.dumps(data, sort_keys=True))]
    return None, st


def candidates(data):
    for i in range(1, len(data["mods"])):
        yield {**data, "mods": data["mods"][:i] + data["mods"][i + 1:]}
    for i, m in enumerate(data["mods"]):
        for j in range(len(m["use"])):
            if len(m["use"]) > 1:
                yield {**data, "mods": data["mods"][:i] + [{**m, "use": m["use"][:j] + m["use"][j + 1:]}] + data["mods"][i + 1:]}
        if m["bss"] or m["data"]:
            yield {**data, "mods": data["mods"][:i] + [{**m, "bss": 0, "data": 0}] + data["mods"][i + 1:]}
    used = {tuple(u[:2]) for m in data["mods"] for u in m["use"]}
    for i, (n, fns, e) in enumerate(data["dlls"]):
        if not any(u[0] == n for u in used):
            yield {**data, "dlls": data["dlls"][:i] + data["dlls"][i + 1:]}
        for f in fns:
            if (n, f) not in used and len(fns) > 1:
                yield {**data, "dlls": data["dlls"][:i] + [[n, [x for x in fns if x != f], e]] + data["dlls"][i + 1:]}
    for k, v in (("origin", None), ("opts", []), ("pad", 0), ("merge", False), ("arfirst", False)):
        if data[k] != v:
            yield {**data, k: v}


def signature(data, fail):
    return re.sub(r"[0-9a-f]+", "", fail["msg"])[:30]


def sample(data):
    return {"scheme": data["scheme"], "dlls": data["dlls"], "uses": [[u[1] for u in m["use"]][:8] for m in data["mods"]], "origin": data["origin"], "options": data["opts"]}
