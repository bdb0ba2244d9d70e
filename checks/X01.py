"""X01: the same program on every target."""
import hashlib, os
from vlib import cexpr, cmem, cprog, core, exprcheck, portprog, targets
from vlib.core import Infra, run

ID = "X01"
NEEDS = ("smlrc", "smlrpp", "smlrl", "smlrcc", "lcl", "lcw", "lcm", "lcdp", "lcdh", "lcdu", "lcds", "dpstub")
QUICK = (400, 60)
THOROUGH = (20000, 750)
TECHNIQUE = "property-based testing: generated portable programs built by the driver for every target and run; compared with each other and with gcc and its library, or with a reference interpreter"
LEVEL_NOTE = "Programs of several files that use strings, formatted input and output, files, memory, sorting, variable arguments, jumps, exit handlers, arguments, standard input, exit status, addresses in initializers, big frames, 32-bit arithmetic, floats and dates; Linux, Windows (also loaded elsewhere), macOS and DPMI executables (the last three under a stand-in loader with guarded stack growth) and tiny, small, huge and unreal DOS in an emulator."
RULE = ("Each evaluation is one program on one target: what it prints, its exit status and the files it leaves (line ends apart, where text files have others) must be those of the same program compiled by gcc with glibc; for the programs of the language generators, those of the reference interpreter. Non-trivial: at least 5 statements and 5 lines of output; distinct by program and target.")
ASSUMPTIONS = ["the generated statements are valid in every state and use numbers within 16 bits (32 where long exists), so what they print does not depend on the target", "floats are exact dyadic values"]
FLAGS = {"linux": ["-linux"], "win": ["-win"], "macos": ["-macos"], "dosp": ["-dosp"], "tiny": ["-dost"], "small": ["-doss"], "huge": ["-dosh"], "unreal": ["-dosu"]}
NATIVE = ("linux", "win", "macos", "dosp")
DOS16 = ("tiny", "small")
DOS = ("huge", "unreal")
FILES = ["F%d.%s" % (i, e) for i, e in ((1, "TXT"), (2, "TXT"), (3, "DAT"), (4, "DAT"), (5, "TXT"))]
BIG = {"linux": 20000, "win": 20000, "macos": 20000, "dosp": 6000, "tiny": 200, "small": 200, "huge": 600, "unreal": 600}


def setup(tc):
    targets.oshost(tc)


def gen(rng, idx, tier):
    k = idx % 6
    uc = rng.random() < 0.3
    base = rng.choice([None, 0x10000000, 0x00a00000, 0x5f000000])
    if k in (0, 1):
        cfg = exprcheck.cfg_of("linux", False)
        if k == 0:
            for _ in range(50):
                p = cprog.PGen(rng, cfg, rng.choice([8, 20, 40])).program()
                try:
                    cprog.Interp(cfg, p).run()
                    return {"fam": "prog", "prog": p, "base": base}
                except cprog.Stop:
                    pass
            raise Infra("no terminating program")
        us = []
        while len(us) < 3:
            u = cmem.MGen(rng, cfg, {"rd": 4, "wr": 4, "as": 3, "pa": 4, "cp": 3, "fn": 2, "by": 2, "pp": 2, "pq": 2, "pf": 2, "ca": 2}).unit()
            try:
                cmem.run_unit(cfg, u, 0)
                us.append(u)
            except cmem.Bad:
                pass
        return {"fam": "mem", "items": us, "base": base}
    return {"fam": "lib", "p": portprog.gen(rng, k != 2, rng.choice([4, 10, 25, 50])), "uc": uc, "base": base, "dos": idx % 12 >= 6 or k == 2}


OUT = "#include <stdio.h>\nvoid out(unsigned v) { printf(\"%08x\\n\", v); }\n"


def build(tc, t, files, work, extra):
    exe = "P.COM" if t == "tiny" else "P.EXE"
    d = os.path.join(work, t)
    os.makedirs(d)
    for n, s in files:
        with open(os.path.join(d, n), "w", encoding="latin-1") as f:
            f.write(s)
    targets._do("smlrcc", [tc.tool("smlrcc"), *FLAGS[t], *extra, *[n for n, _ in files], "-o", exe], d, tc.env(), cpu=60)
    os.chmod(os.path.join(d, exe), 0o755)
    for n in os.listdir(d):
        if n != exe:
            os.remove(os.path.join(d, n))
    return d, exe


def norm(t, b):
    return b.replace(b"\r\n", b"\n") if t not in ("linux", "macos", "ref") else b


def left(t, d):
    up = {n.upper(): n for n in os.listdir(d)}
    r = {}
    for n in FILES:
        if n in up:
            b = open(os.path.join(d, up[n]), "rb").read()
            r[n] = norm(t, b) if n.endswith("TXT") else b
    return r


def runs(tc, data, tl, files, extra, work, args, stdin, rc):
    """-> {target: (output, exit status, files)}; raises targets.Step."""
    res = {}
    dl = []
    for t in tl:
        d, exe = build(tc, t, files, work, ["-DBIG=%d" % BIG[t]] + extra)
        if t in NATIVE:
            inp = stdin.encode()
            if t in ("win", "dosp"):
                inp = inp.replace(b"\n", b"\r\n")
            if t == "linux":
                r = run(["./" + exe, *args], cwd=d, stdin=inp, cpu=10)
            else:
                env = {"PATH": "/bin"}
                if t == "dosp" or t == "win":
                    env["OSHOST_CMD"] = " ".join(args)
                r = targets.run_hosted(tc, exe, d, [] if t in ("dosp", "win") else args, cpu=10, base=data.get("base") if t == "win" else None, env=env, stdin=inp)
            if r.rc == "wall":
                raise Infra("wall")
            res[t] = (norm(t, r.out), r.rc if r.rc != 97 or not r.err.startswith(b"oshost") else r.err[:200], left(t, d))
        else:
            with open(os.path.join(d, "IN"), "wb") as f:
                f.write(stdin.encode().replace(b"\n", b"\r\n"))
            dl.append((t, d, exe))
    if dl:
        bat = ["@echo off"]
        for t, d, exe in dl:
            bat += ["cd \\%s" % t, "%s %s < IN > OUT" % (exe, " ".join(args)), "if errorlevel %d echo GE> GE" % rc]
            if rc < 255:
                bat.append("if errorlevel %d echo GT> GT" % (rc + 1))
        bat += ["cd \\", "echo DONE> ALL.OK", "exit"]
        with open(os.path.join(work, "RUN.BAT"), "w", newline="\r\n") as f:
            f.write("\n".join(bat) + "\n")
        ok = targets.dosbox(work)
        for t, d, exe in dl:
            g = lambda n: open(os.path.join(d, n), "rb").read() if os.path.exists(os.path.join(d, n)) else b""
            if not ok and not os.path.exists(os.path.join(d, "OUT")):
                continue
            r = "hung" if not ok and (t, d, exe) == dl[-1] else rc if b"GE" in g("GE") and b"GT" not in g("GT") else "not %d" % rc
            res[t] = (norm(t, g("OUT")), r, left(t, d))
    return res


def check(tc, data, work):
    st = {"evaluations": 0}
    if data["fam"] in ("prog", "mem"):
        cfg = exprcheck.cfg_of("linux", False)
        try:
            if data["fam"] == "prog":
                exp = cprog.Interp(cfg, data["prog"]).run()
                src = cprog.render(cfg, data["prog"])
            else:
                src, exp = cmem.program(cfg, data["items"])
                exp = [v for x in exp for v in x]
        except (cprog.Stop, cmem.Bad, cexpr.UB, KeyError, IndexError):
            return None, {}
        want = ("".join("%08x\n" % (v & 0xffffffff) for v in exp)).encode()
        tl = ["win", "macos", "dosp"] + (["huge", "unreal"] if data.get("dos") else [])
        files = [("pa.c", src), ("out.c", OUT)]
        args, stdin, rc, wf, extra = [], "", 0, {}, ["-short-wchar", "-unsigned-wchar"]
        text = src
    else:
        p = data["p"]
        files = portprog.texts(p)
        d = os.path.join(work, "ref")
        os.makedirs(d)
        for n, s in files:
            with open(os.path.join(d, n), "w") as f:
                f.write(s)
        r = run(["gcc", "-w", "-O0", "-fwrapv", "-funsigned-char" if data["uc"] else "-fsigned-char", "-DBIG=400", *[n for n, _ in files], "-o", "ref", "-lm"], cwd=d, cpu=60)
        if r.rc:
            raise Infra("gcc: " + r.err.decode("latin-1")[-1500:])
        args, stdin, rc = p["args"], p["stdin"], p["rc"]
        r = run(["./ref", *args], cwd=d, stdin=stdin.encode(), cpu=10)
        if r.rc != rc:
            raise Infra("the reference ends with %s" % r.rc)
        want, wf = r.out, left("ref", d)
        tl = list(NATIVE if data.get("dos") else NATIVE[:1] + NATIVE[1:]) + (list(DOS) + ([] if p["wide"] else list(DOS16)) if data.get("dos") else [])
        extra = ["-unsigned-char"] if data["uc"] else ["-signed-char"]
        text = "\n".join(s for _, s in files if s.startswith("x")) + "\n".join(p["stmts"])
    try:
        res = runs(tc, data, tl, files, extra, work, args, stdin, rc)
    except targets.Step as s:
        if b"too long" in s.r.out or b"too many" in s.r.out.lower():
            return None, {"too_big": 1}
        return {"msg": "rejected a valid program: %s\n%s" % (s, text[:3000])}, {"evaluations": 1}
    st["evaluations"] = len(res)
    st["by_target"] = {t: 1 for t in res}
    h = hashlib.md5(text.encode("latin-1", "replace")).hexdigest()[:12]
    st["nontrivial_keys"] = [h + t for t in res] if want.count(b"\n") >= 5 else []
    for t, (out, r, fl) in res.items():
        def bad(m):
            return {"msg": "%s%s: %s\n%s" % (t, " at %x" % data["base"] if t == "win" and data.get("base") else "", m, text[:4000]), "t": t}, st
        if out != want:
            a, b = want.split(b"\n"), out.split(b"\n")
            n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return bad("output differs at line %d: expected %r, got %r (ends with %s)" % (n + 1, a[n:n + 3], b[n:n + 3], r))
        if r != rc:
            return bad("exit status %s instead of %s" % (r, rc))
        if fl != wf:
            n = next(n for n in FILES if fl.get(n) != wf.get(n))
            return bad("file %s: expected %r, got %r" % (n, (wf.get(n) or b"")[:200] if n in wf else None, (fl.get(n) or b"")[:200] if n in fl else None))
    if len(res) != len(tl):
        return {"msg": "%s: does not start or the one before hung\n%s" % ([t for t in tl if t not in res], text[:3000])}, st
    return None, st


def candidates(data):
    if data["fam"] == "prog":
        cfg = exprcheck.cfg_of("linux", False)
        for p in cprog.prog_edits(data["prog"]):
            try:
                if cprog.valid(p):
                    cprog.Interp(cfg, p).run()
                    yield {**data, "prog": p}
            except (cprog.Stop, KeyError, cexpr.UB, IndexError):
                pass
        return
    if data["fam"] == "mem":
        for i in range(len(data["items"])):
            if len(data["items"]) > 1:
                yield {**data, "items": data["items"][:i] + data["items"][i + 1:]}
        for i, u in enumerate(data["items"]):
            for j in range(len(u["ops"])):
                yield {**data, "items": data["items"][:i] + [{**u, "ops": u["ops"][:j] + u["ops"][j + 1:]}] + data["items"][i + 1:]}
        return
    p = data["p"]
    s = p["stmts"]
    k = len(s) // 2
    while k >= 1:
        for i in range(0, len(s), k):
            yield {**data, "p": {**p, "stmts": s[:i] + s[i + k:]}}
        k //= 2
    for a, v in (("args", []), ("stdin", ""), ("rc", 0), ("split", 1), ("end", "return")):
        if p[a] != v:
            yield {**data, "p": {**p, a: v}}


def sample(data):
    if data["fam"] == "lib":
        return {"statements": data["p"]["stmts"][:12], "args": data["p"]["args"]}
    return {"family": data["fam"]}
