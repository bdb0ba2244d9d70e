"""B14: histories of low-level file calls."""
import os
from vlib import libcheck, targets
from vlib.srv import A, R

ID = "B14"
QUICK = (700, 40)
THOROUGH = (20000, 700)
TECHNIQUE = "stateful (model-based) property-based testing: generated histories of descriptor calls against a reference model of files and descriptors"
LEVEL_NOTE = "Histories over up to 4 descriptors and 3 files with generated combinations of open flags and modes, reads and writes from 0 to 150,000 bytes at odd addresses, seeks in every direction and beyond the end, append, truncation, exclusive creation, unlinking, failing calls; every result, the memory around every transfer and the resulting files (read by the host) compared; Linux, Windows, macOS and DPMI executables (under a stand-in loader), with small/huge/unreal DOS samples."
RULE = "Each evaluation is one history of 4 to 40 operations. Non-trivial: it transfers data and repositions, reopens or fails once; distinct by history."
ASSUMPTIONS = ["on DOS and Windows appending only means starting at the end, as documented in open.c", "combinations POSIX leaves undefined (O_TRUNC without writing, O_EXCL alone) are not generated",
               "on DOS, nothing is written beyond the end of a file and no position before its start is asked for (DOS leaves both undefined)",
               "a file open for writing is not opened twice or unlinked on DOS and Windows", "a file DOS creates is readable and writable until closed"]
PER_CASE = 3
DOS_EVERY = 25
NK = 4
CREAT, EXCL, TRUNC, APPEND = 4, 8, 16, 32
MACF = {CREAT: 0x200, EXCL: 0x800, TRUNC: 0x400, APPEND: 8}
OTHF = {CREAT: 0x40, EXCL: 0x80, TRUNC: 0x200, APPEND: 0x400}
BAD = 77


def flagv(fl, mac):
    return (fl & 3) | sum(v for k, v in (MACF if mac else OTHF).items() if fl & k)


def pat(v, n):
    return bytes((v + i * 7 + (i >> 8) * 31) & 255 for i in range(n))


def sumq(b):
    h = len(b)
    for c in b:
        h = (h * 31 + c) & 0xffffffff
    return h


class UB(Exception):
    pass


class Ino:
    def __init__(self, mode):
        self.b, self.mode, self.opens = bytearray(), mode, []


class Fd:
    pass


class Model:
    """os: posix, win or dos."""

    def __init__(self, os_):
        self.os, self.files, self.fd = os_, {}, {}

    def open(self, k, name, fl, mode):
        if k in self.fd:
            raise UB
        acc = fl & 3
        if acc == 3 or (fl & EXCL and not fl & CREAT) or (fl & TRUNC and acc == 0) or (fl & EXCL and fl & TRUNC):
            raise UB
        ino = self.files.get(name)
        if name == "no/f":
            return -1
        if ino is None:
            if not fl & CREAT:
                return -1
            if self.os != "posix" and fl & APPEND and acc == 0:
                raise UB
            ino = self.files[name] = Ino(mode)
        else:
            if fl & EXCL:
                return -1
            if not ino.mode & 0o200 and (acc or fl & TRUNC or self.os != "posix" and fl & CREAT):
                raise UB            # root may on Linux
            if self.os != "posix" and ino.opens and (acc or any(f.acc for f in ino.opens)):
                raise UB
            if self.os != "posix" and fl & TRUNC and not mode & 0o200:
                raise UB
            if fl & TRUNC:
                if ino.opens:
                    pass
                ino.b[:] = b""
        f = Fd()
        f.ino, f.acc, f.app, f.name = ino, acc, bool(fl & APPEND), name
        f.rw = self.os == "dos" and bool(fl & CREAT)
        f.pos = len(ino.b) if f.app and self.os != "posix" else 0
        f.moved = False
        ino.opens.append(f)
        self.fd[k] = f
        return 0

    def step(self, op):
        f = op[0]
        if f == "open":
            return self.open(op[1], op[2], op[3], op[4])
        if f == "creat":
            return self.open(op[1], op[2], 1 | CREAT | TRUNC, op[3])
        if f == "fopen":
            ino = self.files.get(op[2])
            if ino is None:
                raise UB
            r = self.open(op[1], op[2], 2, 0)
            self.fd[op[1]].stream = True
            return r
        if f == "unlink":
            ino = self.files.get(op[1])
            if ino is None:
                return -1
            if self.os != "posix" and (ino.opens or not ino.mode & 0o200):
                raise UB
            del self.files[op[1]]
            return 0
        if f == "bad":
            return 0 if op[1] == "isatty" else -1
        d = self.fd.get(op[1])
        if d is None:
            raise UB
        if f == "close":
            d.ino.opens.remove(d)
            del self.fd[op[1]]
            return 0
        if f == "isatty":
            return 0
        if f == "neg":
            if self.os == "posix":
                raise UB
            return -1
        if f == "read":
            if d.acc == 1:
                if d.rw or op[2] == 0:
                    raise UB
                return -1, b""
            b = bytes(d.ino.b[d.pos:d.pos + op[2]])
            d.pos += len(b)
            return len(b), b
        if f == "write":
            n = op[2]
            if d.acc == 0:
                if d.rw or n == 0:
                    raise UB
                return -1
            if d.app:
                if self.os == "posix":
                    if n:
                        d.pos = len(d.ino.b)
                elif d.moved:
                    raise UB
            if n == 0:
                return 0
            if d.pos > len(d.ino.b):
                if self.os == "dos" or d.pos + n > 600000:
                    raise UB
                d.ino.b += bytes(d.pos - len(d.ino.b))
            if d.pos + n > 600000:
                raise UB
            d.ino.b[d.pos:d.pos + n] = pat(op[3], n)
            d.pos += n
            return n
        if f == "seek":
            if op[3] == 7:
                return -1
            if op[2] < 0 and op[3] == 0 and self.os == "dos":
                raise UB
            p = op[2] + (0, d.pos, len(d.ino.b))[op[3]]
            if p > 0x7fffffff or p < 0 and self.os == "dos":
                raise UB
            if p < 0:
                return -1
            if p != d.pos:
                d.moved = True
            d.pos = p
            return p
        raise AssertionError(f)


def osof(t):
    t = t.split("@")[0]
    return "posix" if t in ("linux", "macos") else "win" if t == "win" else "dos"


def nsize(rng, b16, big, always=0):
    r = 1 if always else rng.random()
    if r < 0.07:
        return 0
    if r < 0.55:
        return rng.randrange(1, 300)
    if b16:
        return rng.randrange(1, 3000)
    if r < 0.8 or not big:
        return rng.choice([rng.randrange(1, 6000), 512, 1024, 4096, 4095])
    return rng.choice([big - 1, big, big + 1, 2 * big, 2 * big + 1, 65535, 65536, 65537, 131072, 65536, rng.randrange(40000, 150000), rng.randrange(40000, 150000)])


def propose(rng, m, b16, big):
    k = rng.randrange(rng.choice([1, 2, NK]))
    d = m.fd.get(k)
    r = rng.random()
    nm = rng.choice(["a", "b", "c"])
    mode = rng.choice([0o600, 0o600, 0o644, 0o666, 0o640, 0o755, 0o700]) if rng.random() < 0.93 else rng.choice([0o400, 0o444])
    if r < 0.03:
        return ["bad", rng.choice(["read", "write", "lseek", "close", "isatty"])]
    if r < 0.06:
        return ["unlink", nm]
    if d is None:
        if r < 0.2:
            return ["creat", k, nm, mode]
        if r < 0.28 and nm in m.files:
            return ["fopen", k, nm]
        if r < 0.3:
            nm = "no/f"
        fl = rng.choice([0, 1, 2, 2, 2])
        if rng.random() < 0.6:
            fl |= CREAT
            if rng.random() < 0.25:
                fl |= EXCL
        if rng.random() < 0.25:
            fl |= TRUNC
        if rng.random() < 0.2:
            fl |= APPEND
        return ["open", k, nm, fl, mode]
    if r < 0.12:
        return ["close", k]
    if r < 0.15:
        return ["isatty", k]
    if r < 0.16:
        return ["neg", k, rng.choice(["read", "write"]), rng.choice([0x80000000, 0xffffffff, 0x80000001, 0xfffffff0]) if not b16 else rng.choice([0x8000, 0xffff])]
    if r < 0.45:
        n = len(d.ino.b)
        wh = rng.randrange(3)
        off = rng.choice([0, rng.randrange(n + 1), rng.randrange(n + 1), n, n + rng.randrange(300), rng.randrange(max(1, n // 2))])
        if rng.random() < 0.03:
            off = rng.choice([0x7fffffff, 0x10000, 0x12345678, n + 70000])
        if wh == 1:
            off -= d.pos
        if wh == 2:
            off -= n
        if rng.random() < 0.04:
            off = -rng.choice([1, n + 1, d.pos + 1, 70000])
        if rng.random() < 0.03:
            wh = 7
        return ["seek", k, off, wh, rng.randrange(2)]
    if r < 0.7:
        return ["read", k, nsize(rng, b16, big), rng.randrange(16)]
    return ["write", k, nsize(rng, b16, big), rng.randrange(256), rng.randrange(16)]


def gen_item(rng, os_, b16, bigs, bx=False):
    m = Model(os_)
    ops = []
    n = rng.choice([4, 8, 15, 25, 40])
    tries = 0
    if bigs and not b16 and rng.random() < 0.6:
        # transfers beyond what the system takes at a time
        cap = 49152 if os_ == "dos" and not bx else 65520
        ops.append(["open", 0, "a", 2 | CREAT, 0o600])
        for _ in range(rng.choice([3, 5, 8])):
            ops.append(["write" if len(ops) == 1 or rng.random() < 0.3 else "read", 0, nsize(rng, 0, cap, 1), rng.randrange(256), rng.randrange(16)])
            if ops[-1][0] == "read":
                del ops[-1][3]
            ops.append(["seek", 0, rng.choice([0, 0, 0, 1, rng.randrange(3000)]), 0, rng.randrange(2)])
        for op in ops:
            m.step(op)
        bigs, n = 0, rng.randrange(30)
    while len(ops) < n and tries < 400:
        tries += 1
        op = propose(rng, m, b16, (49152 if os_ == "dos" and not bx else 65520) if bigs > 0 and rng.random() < 0.5 else 0)
        try:
            m.step(op)
        except UB:
            continue
        if op[0] in ("read", "write") and op[2] > 6000:
            bigs -= 1
        ops.append(op)
    return {"os": os_, "b16": int(b16), "id": rng.randrange(1 << 20), "ops": ops}


def gen(rng, idx, tier):
    t = libcheck.pick_target(rng, idx, DOS_EVERY, libcheck.DOS, targets.HOSTED)
    items = [gen_item(rng, osof(t), t == "small", (4 if rng.random() < 0.3 else 0) if t in targets.HOSTED or t == "linux" else 4, t in libcheck.DOS) for _ in range(PER_CASE)]
    if t == "macos":
        for it in items:
            it["mac"] = 1
    return {"target": t, "items": items}


def fname(it, n):
    return "no/f" if n == "no/f" else "%s%05X.DAT" % (n.upper(), it["id"])


def blocksize(it):
    return max([op[2] for op in it["ops"] if op[0] in ("read", "write")] + [0]) + 48


def emit(it, s):
    b16 = it["b16"]
    mac = it.get("mac")
    names = {"a": 0, "b": 24, "c": 48, "no/f": 72}
    for n, o in names.items():
        s.w(o, fname(it, n).encode() + b"\0")
    s.w(96, b"r+b\0")
    B = blocksize(it)
    s.call("malloc", B, reg=10)
    h = []
    m = Model(it["os"])
    streams_ = {}
    for op in it["ops"]:
        f = op[0]
        x = None
        if f in ("open", "creat", "fopen"):
            a, reg = A(names[op[2]]), op[1] + 1
            if f == "open":
                fl = op[3]
                # (the mode need not be there without O_CREAT)
                x = s.call("open", a, flagv(fl, mac), *([op[4]] if fl & CREAT else []), reg=reg)
            elif f == "creat":
                x = s.call("creat", a, op[3], reg=reg)
            else:
                s.call("fopen", a, A(96), reg=20 + op[1])
                x = s.call("fileno", R(20 + op[1]), reg=reg)
                streams_[op[1]] = 1
        elif f == "unlink":
            x = s.call("unlink", A(names[op[1]]))
        elif f == "bad":
            args = {"read": (BAD, R(10), 5), "write": (BAD, R(10), 5), "lseek": (BAD, A(112), 1), "close": (BAD,), "isatty": (BAD,)}[op[1]]
            s.w(112, b"\0\0\0\0")
            x = s.call("__lseekp" if op[1] == "lseek" else op[1], *args)
        elif f == "close":
            x = s.call("fclose", R(20 + op[1])) if streams_.pop(op[1], None) else s.call("close", R(op[1] + 1))
        elif f == "isatty":
            x = s.call("isatty", R(op[1] + 1))
        elif f == "neg":
            x = s.call(op[2], R(op[1] + 1), R(10), op[3])
        elif f in ("read", "write"):
            n = op[2]
            at = op[-1]
            s.call("sel", R(10), 0, reg=11)
            if f == "write":
                s.add(11, at)
                s.call("fillq", R(11), n, op[3])
                x = (s.call("write", R(op[1] + 1), R(11), n), s.call("sumq", R(11), n))
            else:
                s.call("fillq", R(11), at + n + 16, 0x5A)
                s.add(11, at)
                x = [s.call("read", R(op[1] + 1), R(11), n)]
                w = m.step(op)
                m2 = w[0] if w[0] > 0 else 0
                # what was read, what lies before it and after it
                x += [s.call("sumq", R(11), m2), s.call("sumq", R(10), at)]
                s.add(11, m2)
                x.append(s.call("sumq", R(11), n - m2 + 16))
        elif f == "seek":
            if b16 or op[4]:
                s.w(112, (op[2] & 0xffffffff).to_bytes(4, "little"))
                x = (s.call("__lseekp", R(op[1] + 1), A(112), op[3]), s.d(112, 4))
            else:
                x = s.call("lseek", R(op[1] + 1), op[2], op[3])
        if f != "read":
            m.step(op)
        h.append(x)
        s.mark()
    for k in sorted(m.fd):
        h.append(s.call("fclose", R(20 + k)) if k in streams_ else s.call("close", R(k + 1)))
    s.call("free", R(10))
    return h


def verify(it, h, o):
    m = Model(it["os"])
    mask = o.mask
    for n, (op, x) in enumerate(zip(it["ops"], h)):
        f = op[0]
        w = m.step(op)
        where = "operation %d %s: " % (n, op)
        if f in ("open", "creat", "fopen"):
            if (o.i(x) >= 0) != (w == 0):
                return where + "returned %d, expected %s" % (o.i(x), "a descriptor" if w == 0 else "-1")
            if w and o.i(x) != -1:
                return where + "returned %d, expected -1" % o.i(x)
        elif f == "read":
            at, sz = op[3], op[2]
            if o.i(x[0]) != w[0]:
                return where + "returned %d, expected %d" % (o.i(x[0]), w[0])
            g = pat(0x5A, at + sz + 16)
            if o.u(x[1]) != sumq(w[1]) & mask:
                return where + "read other bytes than the file holds"
            if o.u(x[2]) != sumq(g[:at]) & mask or o.u(x[3]) != sumq(g[at + len(w[1]):]) & mask:
                return where + "changed memory outside what was read"
        elif f == "write":
            if o.i(x[0]) != w:
                return where + "returned %d, expected %d" % (o.i(x[0]), w)
            if o.u(x[1]) != sumq(pat(op[3], op[2])) & mask:
                return where + "changed the data it wrote"
        elif f == "seek" and isinstance(x, tuple):
            if o.i(x[0]) != (0 if w >= 0 else -1):
                return where + "returned %d, expected %d" % (o.i(x[0]), 0 if w >= 0 else -1)
            v = int.from_bytes(o.d(x[1]), "little")
            if v != (w if w >= 0 else op[2] & 0xffffffff):
                return where + "left position %d, expected %d" % (v, w)
        elif o.i(x) != w:
            return where + "returned %d, expected %d" % (o.i(x), w)
    for x in h[len(it["ops"]):]:
        if o.i(x):
            return "closing a descriptor at the end failed"
    have = {n.upper(): n for n in os.listdir(o.work)}
    um = os.umask(0o22)
    os.umask(um)
    for n in "abc":
        ino = m.files.get(n)
        p = have.get(fname(it, n))
        if (p is None) != (ino is None):
            return "file %s %s" % (n, "is missing" if p is None else "exists, but should not")
        if p is None:
            continue
        p = os.path.join(o.work, p)
        with open(p, "rb") as fh:
            b = fh.read()
        if b != bytes(ino.b):
            i = next((i for i in range(min(len(b), len(ino.b))) if b[i] != ino.b[i]), min(len(b), len(ino.b)))
            return "file %s has %d bytes, expected %d; different from byte %d" % (n, len(b), len(ino.b), i)
        if o.target not in libcheck.DOS:
            got = os.stat(p).st_mode & 0o777
            if it["os"] == "posix" and got != ino.mode & ~um or it["os"] != "posix" and bool(got & 0o200) != bool(ino.mode & 0o200):
                return "file %s was created with mode %o, expected %o" % (n, got, ino.mode & ~um)
        os.chmod(p, 0o600)
        os.remove(p)
    return None


def nontrivial(it):
    f = [op[0] for op in it["ops"]]
    return ("read" in f or "write" in f) and ("seek" in f or "bad" in f or sum(x in ("open", "creat", "fopen") for x in f) > 1)


def kind(it):
    return "%s, %s" % (it["os"], "large" if any(op[0] in ("read", "write") and op[2] > 40000 for op in it["ops"]) else "small")


def show(it):
    return " ".join("%s%s" % (o[0], tuple(o[1:])) for o in it["ops"])[:900]


def legal(it):
    m = Model(it["os"])
    ok = []
    for op in it["ops"]:
        try:
            m.step(op)
        except UB:
            continue
        ok.append(op)
    return {**it, "ops": ok}


def simpler(it):
    seen = set()
    for c in libcheck.simpler_list(it, "ops"):
        c = legal(c)
        k = repr(c["ops"])
        if len(c["ops"]) < len(it["ops"]) and k not in seen:
            seen.add(k)
            yield c
    for i, op in enumerate(it["ops"]):
        if op[0] in ("read", "write"):
            for n in (1, op[2] // 2, op[2] - 1):
                if 0 < n < op[2]:
                    yield legal({**it, "ops": it["ops"][:i] + [[op[0], op[1], n] + op[3:]] + it["ops"][i + 1:]})


def setup(tc):
    from vlib import srv
    srv.setup_all(tc, ("linux", "huge", "unreal", "small") + targets.HOSTED)


NEEDS = ("tools",)
libcheck.bind(globals())
