"""B12: start-up, exit, atexit, non-local jumps."""
import fcntl, hashlib, json, os, shutil, struct
from vlib import core, libcheck, targets, srv
from vlib.core import run, Infra

ID = "B12"
QUICK = (400, 30)
THOROUGH = (8000, 600)
TECHNIQUE = "stateful (model-based) property-based testing: generated histories of handler registrations, stream writes, nested calls, jumps and terminations run as whole processes against a model"
LEVEL_NOTE = "Every case is a set of processes: argument lists with quotes, backslashes, blanks and any bytes, environment lookups, up to 36 handlers (registering more, writing, jumping, ending), buffered streams left open, temporary files, calls nested up to 12 deep with setjmp in every allowed context, longjmp through several frames and out of library callbacks, and every way to end; output, files and exit status compared. Linux, Windows, macOS and DPMI executables (under the stand-in loader), with small/huge/unreal DOS samples."
RULE = "Each evaluation is one process. Non-trivial: it registers a handler, jumps, or leaves data in a stream; distinct by script and arguments."
ASSUMPTIONS = ["abort() is exit(EXIT_FAILURE), as documented", "after _Exit unflushed data may or may not have been written", "at least 32 handlers can be registered; whether more can is up to the library", "DOS arguments follow the documented quoting rules of the Microsoft run time"]
NEEDS = ("tools",)
TG = ("linux", "huge", "unreal", "small") + targets.HOSTED
DOSTG = ("huge", "unreal", "small", "win", "dosp")        # a command line to split; no tmpnam there
DOS_EVERY = 45
NPER = 12


ENVN = ["A", "AB", "X_1", "ABC", "ABCD"]


# ---- generation: a linear list of ops; the model validates it
def gen_run(rng, dos, b16):
    m = Model([], {}, dos)
    m.wide = not b16
    ops = []
    n = rng.choice([3, 8, 15, 30, 50])
    heavy = rng.choice(["jump", "exit", "mix"])
    while len(ops) < n and not m.ended:
        op = propose(rng, m, dos, heavy)
        if m.step(op):
            ops.append(op)
    if not m.ended and rng.random() < 0.85:
        op = rng.choice([["E", sval(rng)], ["R", sval(rng)], ["_", sval(rng)], ["Z"], ["U"], ["E", sval(rng)], ["E", 0]])
        ops.append(op)
    it = {"ops": ops}
    if rng.random() < 0.3:
        ops.insert(0, ["A"])
    it["args"] = gen_tail(rng, dos == "win") if dos else [gen_arg(rng) for _ in range(rng.choice([0, 1, 2, 5, 60]))]
    it["env"] = {n: rng.choice(["v", "a=b", "with space", "=", "1" * 50]) for n in ENVN if rng.random() < 0.4} if dos else {rng.choice(["A", "AB", "PATH", "a", "EMPTY", "X_1", "ABC"]): rng.choice(["", "v", "a=b", "with space", "=", "1" * 50]) for _ in range(rng.randrange(5))}
    return it


def sval(rng):
    return rng.choice([0, 1, 2, 255, 3, rng.randrange(256), rng.randrange(128, 256)])


def ival(rng, wide):
    if wide and rng.random() < 0.4:
        return rng.choice([65536, -65536, 0x7fff0000, -0x80000000, 0x7fffffff, 65537, 1 << rng.randrange(31), rng.randrange(-1 << 31, 1 << 31)])
    return rng.randrange(-300, 300)


def gen_arg(rng):
    k = rng.randrange(4)
    if k == 0:
        return rng.choice(["", "-", " ", "--", "a b", "\\", "\"", "*", "'", "a=b", "%s%n"])
    return "".join(chr(rng.choice([rng.randrange(33, 127), rng.randrange(33, 127), 32, rng.randrange(128, 256), 10])) for _ in range(rng.choice([1, 2, 8, 40, 300])))


def gen_tail(rng, win):
    n = rng.choice([0, 3, 10, 30, 90] + [300, 1500] * win)
    t = "".join(rng.choice(['"', '"', "\\", "\\", " ", " ", "a", "b", "c", "-", "/", "\t", "\\\\\"", '""', '\\"']) for _ in range(n))[:2000 if win else 100].strip(" \t")
    return t + '"' if t.count('"') & 1 else t       # the emulator's shell looks for > outside quotes


def propose(rng, m, dos, heavy):
    r = rng.random()
    d = len(m.lv) - 1
    jumpy = {"jump": 0.5, "exit": 0.05, "mix": 0.25}[heavy]
    if r < jumpy:
        q = rng.random()
        if q < 0.3 and d < 12:
            return ["C", ival(rng, m.wide)]
        if q < 0.55:
            return ["S", rng.randrange(5)]
        live = [i for i in range(d + 1) if m.lv[i]["set"] is not None]
        if live and q < 0.85:
            return ["J", rng.choice(live), rng.choice([0, 0, 1, 4]), rng.choice([0, 1, 2, 5, 6, -1, 256, 32767, -32768, ival(rng, m.wide)])]
        if live and q < 0.92:
            return ["Q", rng.choice(live), rng.choice([1, 2, 7]), rng.choice([rng.randrange(-5, 300), ival(rng, m.wide)])]
        return ["R", ival(rng, m.wide)] if d else ["P", rng.randrange(256)]
    q = rng.random()
    if q < 0.3:
        k = rng.randrange(36)
        return ["H", k]
    if q < 0.45:
        return ["T", rng.randrange(36), rng.choice([1, 1, 2, 3, 0, 4] if rng.random() < 0.3 else [1, 1, 2, 3]), rng.randrange(36)]
    if q < 0.55:
        return ["P", rng.randrange(256)]
    if q < 0.6:
        return ["p", rng.randrange(256)]
    if q < 0.65:
        return ["x", rng.choice(["abc", "no newline", "a\n", "z" * 90])]
    if q < 0.7:
        return rng.choice([["F"], ["b", rng.randrange(3)], ["M"], ["A"]] + ([["G", rng.choice(ENVN + ["NONE", ""])]] if dos else [["G", rng.choice(["A", "AB", "PATH", "a", "EMPTY", "X_1", "ABC", "NONE", ""])]]))
    k = rng.randrange(4)
    f = m.f.get(k)
    if not f:
        return ["O", k, "F%d" % rng.randrange(6)]
    if f["virgin"] and rng.random() < 0.4:
        return ["B", k, rng.randrange(3), rng.randrange(2)]
    return rng.choice([["w", k, rng.choice([1, 5, 255, 256, 257, 600, 1024, 1025, 2000]), rng.randrange(33, 126)], ["w", k, rng.randrange(1, 100), 10], ["f", k], ["c", k]])


class Model:
    """out/err/files expected; 'sure' marks how much of each has certainly been written before an _Exit."""

    def __init__(self, args, env, dos):
        self.args, self.env, self.dos = args, env, dos
        self.lv = [{"set": None}]
        self.hs, self.act = [], {}
        self.f, self.files = {}, {}
        self.out, self.err, self.out_sure = b"", b"", 0
        self.ended, self.rc, self.hard = False, None, False
        self.used_out = False
        self.reg = 0
        self.flags = set()

    def pr(self, s):
        self.out += s.encode("latin-1")
        self.used_out = True

    def finish(self, rc):
        self.ended, self.rc = True, rc & 255
        self.main_end = True
        n = 0
        while self.hs:
            k = self.hs.pop()
            n += 1
            if n > 300:
                return False
            self.pr("h%d\n" % k)
            a, g = self.act.get(k, (0, 0))
            if a == 1:
                if self.room():
                    self.hs.append(g)
                    self.reg += 1
                    self.pr("r%d 0\n" % g)
                else:
                    self.pr("r%d 1\n" % g)
            elif a == 2 and self.f.get(g & 3):
                self.files[self.f[g & 3]["name"]] += b"H%d" % k
            elif a == 3:
                self.pr("hj\n")
            elif a == 4:
                self.rc, self.hard = g, True
                return True
        for f in self.f.values():
            if f:
                f["sure"] = len(self.files[f["name"]])
        self.out_sure = len(self.out)
        return True

    def room(self):
        return len(self.hs) < 32

    def step(self, op):
        """False: not valid here."""
        o, d = op[0], len(self.lv) - 1
        if self.ended:
            return False
        if o == "A":
            a = self.args
            self.pr("argc %d 1\n" % (len(a) + 1) + "".join("<%s>\n" % x for x in a))
        elif o == "G":
            self.pr("%s=%s\n" % (op[1], self.env.get(op[1], "(none)")))
        elif o == "T":
            if op[2] == 1 and op[3] >= op[1]:
                return False          # keeps chains finite
            self.act[op[1]] = (op[2], op[3])
        elif o == "H":
            if self.room():
                self.hs.append(op[1])
                self.pr("a%d 0\n" % op[1])
            else:
                return False
            self.flags.add("handler")
        elif o == "P":
            self.pr("p%d\n" % op[1])
        elif o == "p":
            self.err += b"e%d\n" % op[1]
        elif o == "x":
            self.pr(op[1])
        elif o == "b":
            if self.used_out:
                return False
            self.used_out = True
        elif o == "F":
            self.out_sure = len(self.out)
        elif o == "O":
            if self.f.get(op[1]) or any(f and f["name"] == op[2] for f in self.f.values()):
                return False
            self.f[op[1]] = {"name": op[2], "virgin": True, "sure": 0}
            self.files[op[2]] = b""
            self.pr("o%d 1\n" % op[1])
        elif o in "Bwfc":
            f = self.f.get(op[1])
            if not f:
                return False
            if o == "B":
                if not f["virgin"]:
                    return False
                if op[3] and any(g and g is not f and g.get("vb") == op[1] for g in self.f.values()):
                    return False
                f["vb"] = op[1]
            elif o == "w":
                self.files[f["name"]] += bytes([op[3]]) * op[2]
                self.flags.add("stream")
            elif o == "f":
                f["sure"] = len(self.files[f["name"]])
            else:
                self.f[op[1]] = None
                self.pr("c0\n")
            f["virgin"] = False
        elif o == "M":
            if self.dos:
                return False
            self.pr("tmp 1\n")
        elif o == "C":
            if d >= 13:
                return False
            self.lv.append({"set": None})
        elif o == "R":
            if d == 0:
                return self.finish(op[1])
            self.lv.pop()
            self.pr("ret %d\n" % op[1])
        elif o == "S":
            self.lv[d]["set"] = op[1]
            if op[1] == 4:
                self.pr("set%d\n" % d)
        elif o == "J" or o == "Q" and not op[1] & 64:
            i = op[1]
            if i > d or self.lv[i]["set"] is None:
                return False
            self.flags.add("jump")
            del self.lv[i + 1:]
            v = op[3] or 1
            k = self.lv[i]["set"]
            if k == 0:
                self.pr("j%d %d\n" % (i, v))
            elif k == 1:
                self.pr(("one%d\n" if v == 1 else "two%d\n" if v == 2 else "more%d\n") % i)
            elif k == 2:
                if v == 5:
                    self.pr("five%d\n" % i)
            else:
                self.pr(("jumped%d\n" if k == 3 else "back%d\n") % i)
        elif o == "Q":
            return self.finish(op[3])
        elif o == "E":
            return self.finish(op[1])
        elif o == "_":
            self.ended, self.rc, self.hard = True, op[1] & 255, True
        elif o == "Z":
            return self.finish(1)
        elif o == "U":
            self.err += b"Assertion"
            return self.finish(1)
        return True


def encode(ops):
    b = bytearray()
    for op in ops:
        o = op[0]
        b += o.encode()
        for i, a in enumerate(op[1:]):
            if isinstance(a, str):
                b += a.encode("latin-1") + b"\0"
            elif o in "CR" or (o in "JQ" and i == 2):
                b += struct.pack("<i", a)
            elif o in "E_" or (o == "w" and i == 1):
                b += struct.pack("<h", a)
            else:
                b.append(a & 255)
    return bytes(b) + b"\0"


def dos_args(tail):
    """Arguments as Microsoft's run time (msvcr90 and later) splits them."""
    out, i, s = [], 0, tail
    n = len(s)
    while True:
        while i < n and s[i] in " \t":
            i += 1
        if i >= n:
            return out
        cur, q = "", False
        while i < n and (q or s[i] not in " \t"):
            k = 0
            while i < n and s[i] == "\\":
                k += 1
                i += 1
            if i < n and s[i] == '"':
                cur += "\\" * (k // 2)
                if k & 1:
                    cur += '"'
                    i += 1
                elif q and i + 1 < n and s[i + 1] == '"':
                    cur += '"'
                    i += 2
                else:
                    q = not q
                    i += 1
            else:
                cur += "\\" * k
                if not k and i < n:
                    cur += s[i]
                    i += 1
                elif k:
                    continue
        out.append(cur)


def expected(it, dos):
    m = Model(dos_args(it["args"]) if dos else it["args"], it["env"], dos)
    for op in it["ops"]:
        if not m.step(op):
            return None
    if not m.ended:
        m.pr("end %d\n" % (len(m.lv) - 1))
        while len(m.lv) > 1:
            m.lv.pop()
            m.pr("ret 0\nend %d\n" % (len(m.lv) - 1))
        if not m.finish(0):
            return None
    return m


def gen(rng, idx, tier):
    t = libcheck.pick_target(rng, idx, DOS_EVERY, libcheck.DOS, targets.HOSTED)
    dos, items = t in DOSTG, []
    while len(items) < (NPER if t not in libcheck.DOS else 10):
        it = gen_run(rng, dos and t, t == "small")
        if expected(it, dos) and len(encode(it["ops"])) < 2900:
            items.append(it)
    return {"target": t, "items": items}


def exe_of(tc, t):
    with open(os.path.join(core.ROOT, "rt", "proc.c"), "rb") as f:
        src = f.read()
    return os.path.join(tc.dir, "proc.%s.%s" % (t, hashlib.md5(src).hexdigest()[:8]))


def setup(tc):
    targets.oshost(tc)
    tc.need(*[srv.LIBOF[t] for t in TG])
    for t in TG:
        d = exe_of(tc, t)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(d + "/PROC.EXE"):
                continue
            shutil.copy(os.path.join(core.ROOT, "rt", "proc.c"), d + "/proc.c")
            core.build.sh([tc.tool("smlrcc"), *srv.SMLRC_FLAGS[t], *(["-origin", "0x100000"] if t == "macos" else []), "proc.c", "-o", "T.EXE"], cwd=d, env=tc.env())
            os.rename(d + "/T.EXE", d + "/PROC.EXE")


def judge(m, out, err, files, rc, extra):
    if rc != m.rc:
        return "exit status %s, expected %s; output %r" % (rc, m.rc, out[-200:])
    if m.hard:
        if not m.out.startswith(out) or len(out) < m.out_sure:
            return "output %r, expected %r (at least %d bytes of it)" % (out[-300:], m.out[-300:], m.out_sure)
    elif out != m.out:
        k = next((i for i in range(min(len(out), len(m.out))) if out[i] != m.out[i]), min(len(out), len(m.out)))
        return "output differs at byte %d: %r, expected %r" % (k, out[max(0, k - 60):k + 80], m.out[max(0, k - 60):k + 80])
    if err is not None and not (err == m.err or b"Assertion" in m.err and err.startswith(m.err.replace(b"Assertion", b"")) and b"ssert" in err):
        return "standard error %r, expected %r" % (err[-300:], m.err[-300:])
    for n, w in m.files.items():
        g = files.get(n)
        sure = max([f["sure"] for f in m.f.values() if f and f["name"] == n] or [len(w)])
        if g is None:
            return "file %s is missing" % n
        if (g != w) if not m.hard else not w.startswith(g) or len(g) < sure:
            return "file %s has %d bytes %r, expected %d %r" % (n, len(g), g[-50:], len(w), w[-50:])
    left = set(files) - set(m.files) - extra
    if left and not m.hard:
        return "left over: %s" % sorted(left)
    return None


def check(tc, data, work):
    t = data["target"]
    dos = t in DOSTG
    exe = exe_of(tc, t) + "/PROC.EXE"
    fails = None
    keys, kinds = [], {}
    models = []
    for it in data["items"]:
        m = expected(it, dos)
        if m is None:
            return None, {}
        models.append(m)
    res = []
    if t not in libcheck.DOS:
        for i, it in enumerate(data["items"]):
            d = os.path.join(work, "p%d" % i)
            os.makedirs(d)
            with open(d + "/SCR", "wb") as f:
                f.write(encode(it["ops"]))
            if t == "linux":
                r = run([exe] + [a.encode("latin-1") for a in it["args"]], cwd=d, env=it["env"], cpu=10)
            else:
                e = dict(it["env"])
                if dos:
                    e["OSHOST_CMD"] = it["args"]
                r = targets.run_hosted(tc, exe, d, [] if dos else [a.encode("latin-1") for a in it["args"]], env=e, cpu=10)
            if r.rc == "wall":
                raise Infra("proc: wall clock")
            files = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}
            crlf = (lambda b: b.replace(b"\r\n", b"\n")) if dos else lambda b: b
            res.append((crlf(r.out), crlf(r.err), files, r.rc))
    else:
        shutil.copy(exe, os.path.join(work, "PROC.EXE"))
        bat = ["@echo off"]
        for i, (it, m) in enumerate(zip(data["items"], models)):
            with open(os.path.join(work, "S%d" % i), "wb") as f:
                f.write(encode(it["ops"]))
            bat += ["set %s=%s" % (n, it["env"].get(n, "")) for n in ENVN]
            bat += ["copy S%d SCR > NUL" % i, "PROC.EXE %s > O%d.TXT" % (it["args"], i), "if errorlevel %d echo GE> G%d" % (m.rc, i)]
            if m.rc < 255:
                bat.append("if errorlevel %d echo GT> H%d" % (m.rc + 1, i))
            bat += ["if exist F%d ren F%d R%d.%d" % (k, k, i, k) for k in range(6)]
        bat += ["echo DONE> ALL.OK", "exit"]
        with open(os.path.join(work, "RUN.BAT"), "w", newline="\r\n") as f:
            f.write("\n".join(bat) + "\n")
        ok = targets.dosbox(work)
        up = {n.upper(): open(os.path.join(work, n), "rb").read() for n in os.listdir(work)}
        for i, m in enumerate(models):
            out = up.get("O%d.TXT" % i)
            if out is None:
                return {"msg": "%s: the run did not start or hung" % t, "items": [i]}, {}
            files = {"F%d" % k: up["R%d.%d" % (i, k)] for k in range(6) if "R%d.%d" % (i, k) in up}
            rc = m.rc if b"GE" in up.get("G%d" % i, b"") and b"GT" not in up.get("H%d" % i, b"") else "not %d" % m.rc
            res.append((out.replace(b"\r\n", b"\n"), None, files, rc))
        if not ok:
            return {"msg": "%s: a run hung" % t}, {}
    for i, (it, m, r) in enumerate(zip(data["items"], models, res)):
        f = judge(m, *r, {"SCR"})
        if f:
            return {"msg": "%s: %s\nin %s" % (t, f, json.dumps(it)[:1500]), "items": [i]}, {}
        if m.flags:
            keys.append(hashlib.md5(json.dumps(it).encode()).hexdigest()[:12])
        for k in m.flags:
            kinds[k] = kinds.get(k, 0) + 1
        for k in ("E", "R", "_", "Z", "U"):
            if it["ops"] and it["ops"][-1][0] == k:
                kinds["end " + k] = kinds.get("end " + k, 0) + 1
    return None, {"evaluations": len(res), "nontrivial_keys": keys, "by_target": {t: len(res)}, "kinds": kinds}


def candidates(data):
    if len(data["items"]) != 1:
        return
    it = data["items"][0]
    dos = data["target"] in DOSTG
    ops = it["ops"]
    cs = []
    n = len(ops) // 2
    while n:
        for i in range(0, len(ops), n):
            cs.append({**it, "ops": ops[:i] + ops[i + n:]})
        n //= 2
    if it["args"]:
        cs += [{**it, "args": it["args"][:len(it["args"]) // 2]}, {**it, "args": it["args"][1:]}, {**it, "args": it["args"][:-1]}]
    if it["env"]:
        cs.append({**it, "env": {}})
    for c in cs:
        if expected(c, dos):
            if not dos or c["args"].count('"') % 2 == 0:
                yield {**data, "items": [c]}


def sample(data):
    return {"target": data["target"], "items": data["items"][:2]}
