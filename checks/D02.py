"""D02: archives made by the driver."""
import json, os, random, subprocess
from vlib import core, drv, exprcheck, linkm, linkcheck

ID = "D02"
NEEDS = ("smlrcc", "smlrc", "smlrpp", "smlrl")
QUICK = (2500, 50)
THOROUGH = (80000, 600)
TECHNIQUE = "property-based testing: archives made from generated files, read back by an independent reader, by GNU ar and by the linker against the same archive in another format"
LEVEL_NOTE = "Random lists of up to 40 files of any content, sizes around the copy buffer, names of 1 to 255 characters with special characters and repeated base names, objects given directly or made from assembly and C in the same command."
RULE = ("An evaluation is either one archive, whose members must have exactly the names (without directories) and bytes of the files, in order, for an independent reader and for GNU ar; or one link of generated objects where every archive "
        "is made by smlrcc, which must give the same executable, map and status as the archives in GNU or BSD format. Non-trivial: at least 2 members; distinct by case.")
ASSUMPTIONS = ["nasm and GNU ar are correct", "a backslash separates directories for smlrcc, as a slash does"]

CH = "abcXYZ019_-+. ,;=~%#@!$&()[]{}'\"^\xe9"


def basename(p):
    return p.replace("\\", "/").rsplit("/", 1)[-1]


def name(r):
    k = r.random()
    n = r.choice([1, 2, 3, 8, 12, 13, 14, 15, 16, 17, 30, 100, 253]) if k < 0.6 else r.randint(1, 40)
    al = "abcdefgxyz019_" if r.random() < 0.6 else CH
    s = "".join(r.choice(al) for _ in range(n))
    if s[0] in "-@":
        s = "a" + s[1:]
    return s[:-2] if n > 2 and k < 0.6 else s


def gen(rng, idx, tier):
    if idx % 3 == 2:
        while True:
            fmt = rng.choice(linkm.FORMATS)
            c = linkm.gen_case(rng, fmt)
            if any(i["kind"] == "a" for i in c["inputs"]):
                for i in c["inputs"]:
                    if i["kind"] == "a":
                        i["style"] = rng.choice(["gnu", "bsd"])
                return {"case": c}
    items, used = [], set()
    for _ in range(rng.choice([1, 1, 2, 3, 3, 5, 8, 40])):
        d = rng.choice(["", "", "", "d/", "e/f/", "./", "a.b/"])
        n = name(rng)
        if rng.random() < 0.05:
            n = rng.choice(["g\\", "\\", "h i\\j\\"]) + n
        kind = rng.choice(["o"] * 12 + ["O", "asm", "c"])
        if kind in ("asm", "c"):
            n = "m%d%s" % (len(items), rng.choice(["", "_longer_module_name", "x" * rng.randint(1, 20)]))
        full = d + n
        if os.path.normpath(full) in used or len(n) > 253:
            continue
        used.add(os.path.normpath(full))
        sz = rng.choice([0, 1, 2, 3, 52, 1023, 1024, 1025, 2047, 2048, 2049, 4096, rng.randint(0, 300), rng.randint(0, 300), rng.randint(0, 100000)])
        items.append([full, kind, sz, rng.getrandbits(32)])
    out = rng.choice(["lib.a", "lib.a", "z/lib.a", "L I B.A", "a_longer_library_name.a"])
    return {"items": items, "out": out, "old": rng.choice([None, None, 10, 200000]), "opts": rng.choice([[], [], ["-dosh"], ["-win", "-Wall"]])}


def content(kind, sz, seed):
    r = random.Random(seed)
    if kind == "asm":
        return ("bits 32\nsection .text\n\tglobal f%d\nf%d:\n" % (seed, seed) + "\tnop\n" * (sz % 50) + "\tret\n").encode()
    if kind == "c":
        return ("int v%d = %d;\nint f%d(int a) { return a * %d + v%d; }\n" % (seed, sz, seed, sz % 100 + 2, seed)).encode()
    b = bytearray(r.randbytes(sz))
    if sz > 8 and r.random() < 0.3:
        b[:8] = b"!<arch>\n"
    if sz and r.random() < 0.3:
        b[-1:] = b"\n"
    return bytes(b)


def read_ar(b):
    """An independent reader of the common format: [(name, bytes)]; raises ValueError."""
    if b[:8] != b"!<arch>\n":
        raise ValueError("magic %r" % b[:8])
    i, out = 8, []
    while i < len(b):
        h = b[i:i + 60]
        if len(h) < 60 or h[58:60] != b"`\n":
            raise ValueError("no member header at %d" % i)
        if i & 1:
            raise ValueError("member header at odd offset %d" % i)
        nm, size = h[:16].rstrip(b" "), h[48:58].rstrip(b" ")
        for what, fld, base in (("date", h[16:28], 10), ("uid", h[28:34], 10), ("gid", h[34:40], 10), ("mode", h[40:48], 8), ("size", h[48:58], 10)):
            int(fld.decode("ascii").rstrip(" ") or "x", base)
        n = int(size)
        d = b[i + 60:i + 60 + n]
        if len(d) != n:
            raise ValueError("member at %d is cut off" % i)
        if nm.startswith(b"#1/"):
            k = int(nm[3:])
            nm, d = d[:k].rstrip(b"\0"), d[k:]
        elif nm.endswith(b"/"):
            nm = nm[:-1]
        else:
            raise ValueError("member name %r" % nm)
        out.append((nm, d))
        i += 60 + n
        if n & 1:
            if b[i:i + 1] != b"\n":
                raise ValueError("no padding after member %r" % nm)
            i += 1
    return out


def run_cc(tc, args, w, cpu=20):
    return core.run([tc.tool("smlrcc")] + [a.encode("latin-1") for a in args], cwd=w, env={"PATH": tc.dir + "/bin:" + os.environ["PATH"], "SMLRC": tc.smlrc_home, "LC_ALL": "C"}, cpu=cpu)


def check_list(tc, data, work):
    w = os.path.join(work, "w")
    os.makedirs(w)
    files, want = {}, []
    os.makedirs(w + "/z")
    for full, kind, sz, seed in data["items"]:
        files[full + "." + kind] = content(kind, sz, seed)
    drv.put(w, files)
    st = {"evaluations": 1, "members": {"objects": sum(i[1] in "oO" for i in data["items"]), "compiled": sum(i[1] not in "oO" for i in data["items"])}}
    if data["old"]:
        drv.put(w, {data["out"]: random.Random(data["old"]).randbytes(data["old"])})
    for full, kind, sz, seed in data["items"]:
        base = basename(full)
        if kind in "oO":
            want.append((base + "." + kind, files[full + "." + kind]))
            continue
        r = run_cc(tc, data["opts"] + ["-c", full + "." + kind], w)
        p = os.path.join(w, full + ".o")
        if r.rc != 0 or not os.path.exists(p):
            return {"msg": "smlrcc -c %s.%s fails: rc=%s %s" % (full, kind, r.rc, (r.out + r.err)[-200:])}, st
        want.append((base + ".o", open(p, "rb").read()))
        os.unlink(p)
    if not want:
        return None, {"evaluations": 0}
    args = data["opts"] + ["-c", "-o", data["out"]] + [i[0] + "." + i[1] for i in data["items"]]
    r = run_cc(tc, args, w)
    p = os.path.join(w, data["out"])
    if r.rc != 0 or not os.path.exists(p):
        return {"msg": "smlrcc %r: rc=%s %s" % (args[:8], r.rc, (r.out + r.err)[-200:])}, st
    b = open(p, "rb").read()
    try:
        got = read_ar(b)
    except ValueError as e:
        return {"msg": "the archive of %r is malformed: %s" % (want and [x[0] for x in want], e)}, st
    wl = [(n.encode("latin-1"), d) for n, d in want]
    if [n for n, _ in got] != [n for n, _ in wl]:
        return {"msg": "member names are %r instead of %r" % ([n for n, _ in got][:6], [n for n, _ in wl][:6])}, st
    for (n, g), (_, x) in zip(got, wl):
        if g != x:
            k = next((i for i, (a, c) in enumerate(zip(g, x)) if a != c), min(len(g), len(x)))
            return {"msg": "member %r of size %d differs from its file (size %d) at %d" % (n, len(g), len(x), k)}, st
    # GNU ar cuts some names at a space
    if data["items"][0][3] % 4 == 0 and not any(b" " in n for n, _ in wl):
        q = core.run(["ar", "t", p], cwd=w, cpu=10)
        if q.rc != 0 or q.out.split(b"\n")[:-1] != [n for n, _ in wl]:
            return {"msg": "ar t lists %r instead of %r (%s)" % (q.out[:200], [n for n, _ in wl][:6], q.err[:100])}, st
        q = subprocess.run(["ar", "p", p], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
        if q.returncode != 0 or q.stdout != b"".join(d for _, d in wl):
            return {"msg": "ar p extracts other bytes (rc=%d %s)" % (q.returncode, q.stderr[:100])}, st
        st["read by ar"] = 1
    if len(want) >= 2:
        st["nontrivial_keys"] = [exprcheck.hash_key(json.dumps(data, sort_keys=True))]
    return None, st


def check_link(tc, data, work):
    case = data["case"]
    fl = linkm.files_of(case)
    r0, b0, m0 = linkcheck.link(tc, case, work, "r", files=fl)
    w = os.path.join(work, "w")
    os.makedirs(w)
    files = []
    n = 0
    for (nm, b), inp in zip(fl, case["inputs"]):
        if inp["kind"] == "a":
            mem = list(zip(inp["names"], [linkm.write_obj(o) for o in inp["members"]]))
            if len({m[0] for m in mem}) != len(mem):
                return None, {"evaluations": 0}
            drv.put(w, dict(mem))
            r = run_cc(tc, ["-c", "-o", nm] + [m[0] for m in mem], w)
            p = os.path.join(w, nm)
            if r.rc != 0 or not os.path.exists(p):
                return {"msg": "smlrcc -c -o %s: rc=%s %s" % (nm, r.rc, (r.out + r.err)[-200:])}, {"evaluations": 1}
            b = open(p, "rb").read()
            for m in mem:
                os.unlink(os.path.join(w, m[0]))
            n += len(mem)
        files.append((nm, b))
    r1, b1, m1 = linkcheck.link(tc, case, work, "d", files=files)
    st = {"evaluations": 1, "links": {case["fmt"]: 1}}
    if r0.rc != r1.rc or b0 != b1 or (m0 or "").replace("r.exe", "d.exe") != (m1 or ""):
        return {"msg": "-%s: linking the archives made by smlrcc differs from linking others: rc %s and %s, %s (%s)" % (
            case["fmt"], r0.rc, r1.rc, "executables differ" if b0 != b1 else "maps differ", (r1.out + r1.err)[-200:])}, st
    if n >= 2 and r0.rc == 0:
        st["nontrivial_keys"] = [exprcheck.hash_key(json.dumps(case))]
    return None, st


def check(tc, data, work):
    return check_link(tc, data, work) if "case" in data else check_list(tc, data, work)


def candidates(data):
    if "case" in data:
        yield from linkcheck.candidates(data)
        return
    for i, (full, kind, sz, seed) in enumerate(data["items"]):
        for s in {0, 1, sz // 2, sz - 1}:
            if 0 <= s < sz:
                yield {**data, "items": data["items"][:i] + [[full, kind, s, seed]] + data["items"][i + 1:]}
        b = basename(full)
        for nb in ("a" * len(b), b[:-1], b[:len(b) // 2], b):
            if nb and nb != full and len(nb) <= len(b) and all(nb != x[0] for x in data["items"]):
                yield {**data, "items": data["items"][:i] + [[nb, kind, sz, seed]] + data["items"][i + 1:]}
    if data["old"]:
        yield {**data, "old": None}
    if data["opts"]:
        yield {**data, "opts": []}
    if data["out"] != "lib.a":
        yield {**data, "out": "lib.a"}


def signature(data, fail):
    return fail["msg"][:20]


def sample(data):
    if "case" in data:
        return linkcheck.sample(data)
    return {"files": [["%s.%s" % (f, k), s] for f, k, s, _ in data["items"]][:10], "archive": data["out"]}
