"""B07: stream histories."""
import copy
from vlib import libcheck, streams, targets
from vlib.srv import A, R

ID = "B07"
QUICK = (900, 40)
THOROUGH = (30000, 700)
TECHNIQUE = "stateful (model-based) property-based testing: generated stream histories against a reference model of C files"
LEVEL_NOTE = "Histories over up to 3 streams and 3 files with every mode, buffering choice, read, write, seek, pushback, flush, reopen, remove, rename and temporary file; every result, buffer and final file content compared; sizes around the buffer size; Linux, Windows, macOS and DPMI executables (under a stand-in loader), with small/huge/unreal DOS samples."
RULE = "Each evaluation is one history of 5 to 70 operations. Non-trivial: it both transfers data and repositions, pushes back or reopens; distinct by history."
ASSUMPTIONS = ["C's restrictions on switching between reading and writing are respected", "one pushed-back character at a time, after at least one read", "'a+' is documented as not supported",
               "after a failed seek the position is unspecified until the next absolute seek", "the position of an append stream is not asked for", "setvbuf only before any other operation"]
PER_CASE = 4
DOS_EVERY = 45
NS = 3
MODES = ["r", "w", "a", "r+", "w+", "rb", "wb", "ab", "r+b", "w+b", "rb+", "wb+", "w+b", "r+b"]


def sizes(rng, b16):
    r = rng.random()
    lim = 1200 if b16 else 3500
    if r < 0.5:
        return rng.randrange(1, 40)
    if r < 0.8:
        return min(lim, rng.choice([511, 512, 513, 1023, 1024, 1025, 1026, 1022, 2048, 2047, 64, 63, 65, 128]))
    return rng.randrange(1, lim)


def propose(rng, m, b16, dos):
    k = rng.randrange(NS)
    s = m.st.get(k)
    nm = rng.choice(["f0", "f1", "f2"])
    mode = rng.choice(MODES)
    if dos and "b" not in mode and rng.random() < 0.4:
        mode += "b"
    if not s:
        r = rng.random()
        if r < 0.06:
            return ["remove", nm]
        if r < 0.12:
            return ["rename", nm, rng.choice(["f0", "f1", "f2", "f3"])]
        if r < 0.17:
            return ["tmpfile", k]
        if r < 0.2:
            return ["open", k, nm, "a+" + ("b" if dos else "")]
        return ["open", k, nm, mode]
    r = rng.random()
    if s.lost:
        return rng.choice([["fseek", k, rng.randrange(0, 50), 0], ["rewind", k], ["close", k]])
    if s.virgin and r < 0.4:
        sz = rng.choice([1, 2, 3, 16, 17, 64, 100, 255, 256] if b16 else [1, 2, 3, 16, 17, 64, 100, 255, 512, 1024, 1025, 2000])
        return ["setvbuf", k, rng.choice(["F", "L", "N"]), sz, rng.randrange(2)]
    if r < 0.04:
        return ["close", k]
    if r < 0.06:
        return ["reopen", k, rng.choice([nm, s.name if s.name[0] == "f" else nm]), mode]
    if r < 0.09:
        return ["flushall"]
    if r < 0.14:
        return ["fflush", k]
    if r < 0.24:
        fl = len(m.files[s.name])
        wh = rng.randrange(3)
        if rng.random() < 0.06:
            off = -rng.randrange(1, 3000)
        elif wh == 0:
            off = rng.choice([rng.randrange(fl + 1), rng.randrange(fl + 1), fl, max(0, s.pos + rng.randrange(-20, 20)), fl + rng.randrange(30)])
        elif wh == 1:
            off = rng.choice([rng.randrange(-s.pos, 1), rng.randrange(0, max(1, fl - s.pos + 1)), 0, rng.randrange(-10, 10), -rng.randrange(min(s.pos, 40) + 1)])
        else:
            off = -rng.choice([0, rng.randrange(fl + 1), min(fl, 5), 0])
        if s.text:
            off = rng.choice([0] + sorted(m.told.get(s.name, [0]))) if wh == 0 else 0
        return ["fseek", k, off, wh]
    if r < 0.27:
        return ["rewind", k]
    if r < 0.33:
        return ["ftell", k]
    if r < 0.36:
        return [rng.choice(["fgetpos", "fsetpos"]), k]
    if r < 0.40:
        return [rng.choice(["feof", "ferror", "clearerr", "feof"]), k]
    if r < 0.5 and s.last == "r":
        return ["ungetc", k, rng.randrange(256)]
    if s.rd and (not s.wr or rng.random() < 0.55):
        r = rng.random()
        if r < 0.4:
            return ["getc", k, rng.randrange(2)]
        if r < 0.6:
            return ["fgets", k, rng.choice([2, 3, 10, 80, sizes(rng, b16) + 1])]
        es = rng.choice([1, 1, 1, 2, 3, 7, 16])
        return ["fread", k, es, max(rng.choice([0, 1, 1, 1]), sizes(rng, b16) // es)]
    r = rng.random()
    if r < 0.35:
        return ["putc", k, rng.choice([rng.randrange(256), 10, 255, 0]), rng.randrange(2)]
    if r < 0.5:
        return ["fputs", k, rng.randrange(256), rng.choice([0, 1, 5, sizes(rng, b16)])]
    if r < 0.6:
        return ["printf", k, rng.randrange(256), rng.choice([0, 3, 20, sizes(rng, b16)]), rng.choice([0, -1, 12345, rng.randrange(-30000, 30000)])]
    es = rng.choice([1, 1, 1, 2, 3, 7, 16])
    return ["fwrite", k, es, max(rng.choice([0, 1, 1, 1]), sizes(rng, b16) // es), rng.randrange(256)]


def gen_item(rng, b16, dos):
    if not dos and rng.random() < 0.04:
        if rng.random() < 0.2:
            return {"full": 0, "mode": "F", "size": 1, "id": rng.randrange(1 << 30), "ops": []}
        return {"full": rng.choice([1, 5, 1023, 1024, 1025, 3000]), "mode": rng.choice("FLN"), "size": rng.choice([1, 16, 1024]), "id": rng.randrange(1 << 30), "ops": []}
    m = streams.Model(dos)
    ops = []
    pre = [[1, "f%d" % i, sizes(rng, b16) + (rng.randrange(3000) if not b16 else 0), rng.randrange(256), rng.randrange(2)] for i in range(3) if rng.random() < 0.7]
    prefill(m, pre)
    n = rng.choice([5, 10, 20, 40, 70])
    tries = 0
    while len(ops) < n and tries < 400:
        tries += 1
        op = propose(rng, m, b16, dos)
        try:
            m.step(op)
        except streams.UB:
            continue
        ops.append(op)
    return {"b16": int(b16), "dos": int(dos), "pre": pre, "ops": ops}


def prefill(m, pre):
    for _, nm, n, seed, t in pre:
        m.files[nm] = bytearray(streams.txt(seed, n) if t else streams.pat(seed, n))


def gen(rng, idx, tier):
    t = libcheck.pick_target(rng, idx, DOS_EVERY, libcheck.DOS, targets.HOSTED)
    return {"target": t, "items": [gen_item(rng, t in libcheck.DOS, t not in ("linux", "macos")) for _ in range(PER_CASE if t not in libcheck.DOS else 8)]}


def lay(b16):
    return {"src": 0x100, "dst": 0x600, "ext": 0xb00, "exts": 0x180, "g": 32} if b16 else {"src": 0x1000, "dst": 0x3000, "ext": 0x8000, "exts": 0x1000, "g": 64}


def emit(it, s):
    if "full" in it:
        return emit_full(it, s)
    b16 = it["b16"]
    s16 = s.mask == 0xffff
    L = lay(b16)
    names = {"f0": 0, "f1": 8, "f2": 16, "f3": 24}
    for n, o in names.items():
        s.w(o, n.encode() + b"\0")
    s.w(64, b"%d<%s>\n\0")
    s.w(80, b"wb\0")
    for n in names:
        s.call("remove", A(names[n]))
    for _, nm, n, seed, t in it["pre"]:
        b = streams.txt(seed, n) if t else streams.pat(seed, n)
        s.call("fopen", A(names[nm]), A(80), reg=9)
        for i in range(0, len(b), 1000):
            s.w(L["src"], b[i:i + 1000])
            s.call("fwrite", A(L["src"]), 1, min(1000, len(b) - i), R(9))
        s.call("fclose", R(9))
    h = []
    s.fill(L["ext"], L["exts"] * 3, 0xA5)
    m = streams.Model(it.get("dos", b16))
    prefill(m, it["pre"])
    exts = {}

    def pos4(v):
        return bytes((v >> (8 * i)) & 255 for i in range(4))
    for op in it["ops"]:
        f = op[0]
        k = op[1] if len(op) > 1 else None
        x = None
        if f == "open":
            s.w(80, op[3].encode() + b"\0")
            x = s.call("fopen", A(names[op[2]]), A(80), reg=k + 1)
        elif f == "reopen":
            s.w(80, op[3].encode() + b"\0")
            c = s.call("freopen", A(names[op[2]]), A(80), R(k + 1), reg=9)
            x = (c, s.call("same_ptr", R(9), R(k + 1)))
        elif f == "close":
            x = s.call("fclose", R(k + 1))
        elif f == "setvbuf":
            mode = {"F": 1, "L": 4, "N": 2}[op[2]]
            e = L["ext"] + L["exts"] * k + L["g"]
            if op[4]:
                exts[k] = op[3]
            x = s.call("setvbuf", R(k + 1), A(e) if op[4] else 0, mode, op[3])
        elif f == "getc":
            x = s.call("m_getc" if op[2] else "fgetc", R(k + 1))
        elif f == "fread":
            n = op[2] * op[3]
            s.fill(L["dst"], n + 8, 0xEE)
            x = (s.call("fread", A(L["dst"]), op[2], op[3], R(k + 1)), s.d(L["dst"], n + 8))
        elif f == "fgets":
            s.fill(L["dst"], op[2] + 8, 0xEE)
            x = (s.call("fgets", A(L["dst"]), op[2], R(k + 1)), s.d(L["dst"], op[2] + 8))
        elif f == "ungetc":
            x = s.call("ungetc", op[2], R(k + 1))
        elif f == "putc":
            x = s.call("m_putc" if op[3] else "fputc", op[2], R(k + 1))
        elif f == "fwrite":
            s.w(L["src"], m.bytes_for(m.st[k], op[4], op[2] * op[3]))
            x = s.call("fwrite", A(L["src"]), op[2], op[3], R(k + 1))
        elif f == "fputs":
            s.w(L["src"], streams.txt(op[2], op[3]) + b"\0")
            x = s.call("fputs", A(L["src"]), R(k + 1))
        elif f == "printf":
            s.w(L["src"], streams.txt(op[2], op[3]) + b"\0")
            x = s.call("fprintf", R(k + 1), A(64), op[4], A(L["src"]))
        elif f == "ftell":
            if s16 or k == 1:
                x = (s.call("__ftell", R(k + 1), A(96)), s.d(96, 4))
            else:
                x = s.call("ftell", R(k + 1))
        elif f in ("fgetpos", "fsetpos"):
            x = s.call(f, R(k + 1), A(100 + 8 * k))
        elif f == "fseek":
            if s16 or k == 1:
                s.w(96, pos4(op[2]))
                x = s.call("__fseek", R(k + 1), A(96), op[3])
            else:
                x = s.call("fseek", R(k + 1), op[2], op[3])
        elif f == "rewind":
            s.call("rewind", R(k + 1))
        elif f == "fflush":
            x = s.call("fflush", R(k + 1))
        elif f == "flushall":
            x = s.call("fflush", 0)
        elif f == "feof":
            x = s.call("m_feof", R(k + 1))
        elif f == "ferror":
            x = s.call("m_ferror", R(k + 1))
        elif f == "clearerr":
            s.call("clearerr", R(k + 1))
        elif f == "remove":
            x = s.call("remove", A(names[op[1]]))
        elif f == "rename":
            x = s.call("rename", A(names[op[1]]), A(names[op[2]]))
        elif f == "tmpfile":
            x = s.call("tmpfile", reg=k + 1)
        m.step(op)
        h.append(x)
        s.mark()
    for k in range(NS):
        if m.st.get(k):
            h.append(s.call("fclose", R(k + 1)))
    g = s.d(L["ext"], L["exts"] * 3)
    dump = []
    for n in names:
        c = s.call("open", A(names[n]), 0, reg=9)
        want = m.files.get(n)
        if want is None:
            dump.append((n, c, None, None))
            s.call("close", R(9))
            continue
        parts = []
        left = len(want) + 1
        while left > 0:
            q = min(left, 1000)
            parts.append((s.call("read", R(9), A(L["dst"]), q), s.d(L["dst"], q), q))
            left -= q
        s.call("close", R(9))
        dump.append((n, c, parts, bytes(want)))
        s.call("remove", A(names[n]))
    return h, g, dump, exts


def verify(it, hd, o):
    if "full" in it:
        return verify_full(it, hd, o)
    h, g, dump, exts = hd
    b16 = it["b16"]
    L = lay(b16)
    m = streams.Model(it.get("dos", b16))
    prefill(m, it["pre"])
    for n, (op, x) in enumerate(zip(it["ops"], h)):
        f = op[0]
        k = op[1] if len(op) > 1 else None
        app = f in ("fseek",) and m.st[k].app
        w = m.step(op)
        where = "operation %d %s: " % (n, op)
        if f in ("open", "tmpfile"):
            if bool(o.u(x)) != bool(w):
                return where + ("failed" if w else "succeeded")
        elif f == "reopen":
            if not o.u(x[0]) or not o.u(x[1]):
                return where + "did not return the stream"
        elif f in ("rewind", "clearerr") or app:
            pass
        elif f == "fread":
            c, b = o.u(x[0]), o.d(x[1])
            if c != w[0] or b[:len(w[1])] != w[1] or b[op[2] * op[3]:] != b"\xee" * 8:
                return where + "returned %d, expected %d, data %s" % (c, w[0], "as expected" if b[:len(w[1])] == w[1] else "wrong from byte %d" % next((i for i in range(len(w[1])) if b[i] != w[1][i]), -1))
        elif f == "fgets":
            c, b = o.u(x[0]), o.d(x[1])
            if bool(c) != (w is not None):
                return where + ("returned NULL" if w else "did not return NULL")
            if w is None:
                w = b""
            if b != w + b"\xee" * (len(b) - len(w)):
                return where + "read %r, expected %r" % (b[:60], w[:60])
        elif f == "fputs":
            if o.i(x) < 0:
                return where + "failed"
        elif f in ("fseek", "remove", "rename"):
            if (o.i(x) == 0) != w:
                return where + "returned %d, expected %s" % (o.i(x), "0" if w else "a failure")
        elif f == "ftell" and isinstance(x, tuple):
            if o.i(x[0]) or int.from_bytes(o.d(x[1]), "little") != w:
                return where + "%d at %d, expected %d" % (o.i(x[0]), int.from_bytes(o.d(x[1]), "little"), w)
        elif o.i(x) != w:
            return where + "returned %d, expected %d" % (o.i(x), w)
    for x in h[len(it["ops"]):]:
        if o.i(x):
            return "fclose failed at the end"
    b = o.d(g)
    for k in range(NS):
        blk = b[k * L["exts"]:(k + 1) * L["exts"]]
        end = L["g"] + exts.get(k, 0)
        if max(it_sizes(it, k), default=0) + L["g"] > end:
            end = L["g"] + max(it_sizes(it, k))
        if any(c != 0xA5 for c in blk[:L["g"]]) or any(c != 0xA5 for c in blk[end:]):
            return "bytes outside the buffer given to setvbuf changed (stream %d)" % k
    for n, c, parts, want in dump:
        if want is None:
            if o.i(c) >= 0:
                return "file %s exists, but should not" % n
            continue
        if o.i(c) < 0:
            return "file %s is missing" % n
        got = b"".join(o.d(p[1])[:max(0, o.i(p[0]))] for p in parts)
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            return "file %s differs at offset %d (length %d%s, expected %d)" % (n, i, len(got), "+" if len(got) > len(want) else "", len(want))
    return None


def it_sizes(it, k):
    return [op[3] for op in it["ops"] if op[0] == "setvbuf" and op[1] == k and op[4]]


def emit_full(it, s):
    """Output errors are reported (a device that is always full), and so are read errors (a directory)."""
    s.w(0, b"/dev/full\0")
    s.w(16, b"w\0")
    s.w(24, b".\0")
    s.w(32, b"r\0")
    if it["full"] == 0:
        a = s.call("fopen", A(24), A(32), reg=1)
        return (a, s.call("fgetc", R(1)), s.call("m_feof", R(1)), s.call("m_ferror", R(1)), s.call("clearerr", R(1)), s.call("m_ferror", R(1)), s.call("fclose", R(1)))
    a = s.call("fopen", A(0), A(16), reg=1)
    s.call("setvbuf", R(1), 0, {"F": 1, "L": 4, "N": 2}[it["mode"]], it["size"])
    b = s.call("fwrite", A(0x1000), 1, it["full"], R(1))
    c = s.call("fflush", R(1))
    e = s.call("m_ferror", R(1))
    s.call("clearerr", R(1))
    e2 = s.call("m_ferror", R(1))
    return (a, b, c, e, e2, s.call("fclose", R(1)))


def verify_full(it, hd, o):
    v = [o.i(x) for x in hd]
    if not v[0]:
        return "fopen of %s failed" % ("." if it["full"] == 0 else "/dev/full")
    if it["full"] == 0:
        return None if (v[1], v[2], v[3], v[5]) == (-1, 0, 1, 0) else "reading a directory: fgetc, feof, ferror, ferror after clearerr: %s" % [v[1], v[2], v[3], v[5]]
    if v[1] == it["full"] and v[2] == 0:
        return "an output error was lost: fwrite and fflush reported success"
    if v[3] != 1 or v[4] != 0:
        return "ferror %d after an output error, %d after clearerr" % (v[3], v[4])
    return None


def nontrivial(it):
    f = {op[0] for op in it["ops"]}
    return "full" in it or bool(f & {"fread", "getc", "fgets", "fwrite", "putc", "fputs", "printf"}) and bool(f & {"fseek", "rewind", "ungetc", "reopen", "fsetpos", "close", "fflush"})


def kind(it):
    return "full" if "full" in it else "ops%d" % min(70, len(it["ops"]) // 10 * 10)


def show(it):
    if "full" in it:
        return "/dev/full, %s" % it
    return "files %s; " % [p[1:3] for p in it["pre"]] + " ".join("%s%s" % (o[0], tuple(o[1:])) for o in it["ops"])[:1200]


def legal(it):
    m = streams.Model(it.get("dos", it["b16"]))
    prefill(m, it["pre"])
    try:
        for op in it["ops"]:
            m.step(op)
    except streams.UB:
        return False
    return True


def simpler(it):
    if "full" in it:
        return
    for c in libcheck.simpler_list(it, "ops"):
        if legal(c):
            yield c
    for i, p in enumerate(it["pre"]):
        for n in (0, p[2] // 2, p[2] - 1):
            if 0 <= n < p[2]:
                c = copy.deepcopy(it)
                c["pre"][i][2] = n
                if legal(c):
                    yield c


libcheck.bind(globals())
