"""Reference model of the compiler driver (doc/smlrcc.md): which tools a command line stands for, with which arguments,
and which files are there afterwards. Also generators of command lines and the harness with stand-in tools."""
import os, struct, subprocess

from . import build, core

EXE = {"tiny": "a.com", "dost": "a.com", "small": "a.exe", "doss": "a.exe", "huge": "a.exe", "dosh": "a.exe", "unreal": "a.exe", "dosu": "a.exe",
       "dosp": "a.exe", "aout": "a.out", "win": "a.exe", "pe": "a.exe", "linux": "a.out", "elf": "a.out", "macos": "a.out", "flat16": "a.bin", "flat32": "a.bin"}
CGEN = {"tiny": "-seg16", "dost": "-seg16", "small": "-seg16", "doss": "-seg16", "flat16": "-seg16", "huge": "-huge", "dosh": "-huge", "unreal": "-unreal", "dosu": "-unreal"}
LFMT = {"dost": "-tiny", "doss": "-small", "dosh": "-huge", "dosu": "-unreal", "dosp": "-aout", "win": "-pe", "linux": "-elf", "macos": "-mach"}
LIBNAME = {"dost": "lcds.a", "doss": "lcds.a", "dosh": "lcdh.a", "dosu": "lcdu.a", "dosp": "lcdp.a", "win": "lcw.a", "linux": "lcl.a", "macos": "lcm.a"}
TDEF = {"dost": ["_DOS"], "doss": ["_DOS"], "dosh": ["_DOS"], "dosu": ["_DOS"], "dosp": ["_DOS", "_DPMI"], "win": ["_WINDOWS"], "linux": ["_LINUX"], "macos": ["_MACOS"]}
TARGETS = list(EXE)
LONGW = ("linux", "elf", "macos")
CHAROPT = ["-signed-char", "-unsigned-char", "-signed-wchar", "-unsigned-wchar", "-short-wchar", "-long-wchar", "-leading-underscore", "-no-leading-underscore", "-winstack", "-Wall"]
LINK2 = ["-map", "-pesubsys", "-entry", "-origin", "-stack", "-minheap", "-maxheap"]


class Reject(Exception):
    """The command line itself is an error."""


class Step:
    def __init__(self, tool, units, ins, out, temp):
        self.tool, self.units, self.ins, self.out, self.temp = tool, units, ins, out, temp

    def argv(self):
        return [self.tool] + [a for u in self.units for a in u]

    def __repr__(self):
        return repr(self.argv())


class Plan:
    """steps; outs: files there at the end; temps: files that must be gone; archive: member list or None."""


def inc_lib(env, target, slpath, exists):
    """Where the system headers, library and stub are found."""
    libn = LIBNAME.get(target)
    inc = lib = stub = None
    if libn and slpath is not None:
        d = slpath + ("" if slpath.endswith(("/", "\\")) else "/")
        if exists(d + libn):
            lib = d + libn
            if target == "dosp" and exists(d + "dpstub.exe"):
                stub = d + "dpstub.exe"
    roots = []
    if env.get("SMLRC") is not None:
        e = env["SMLRC"]
        roots.append(e + ("" if not e or e.endswith(("/", "\\")) else "/"))
    if env.get("HOME") is not None:
        e = env["HOME"]
        roots.append(e + ("" if not e or e.endswith(("/", "\\")) else "/") + "smlrc/")
    roots.append(env["*prefix"] + "/smlrc/")
    for r in roots:
        if inc is None and exists(r + "include/limits.h"):
            inc = r + "include"
        if libn and lib is None and exists(r + "lib/" + libn):
            lib = r + "lib/" + libn
            if target == "dosp" and stub is None and exists(r + "lib/dpstub.exe"):
                stub = r + "lib/dpstub.exe"
        if inc and (lib or not libn):
            break
    return inc, lib, stub


def plan(args, env, exists):
    """args: the expanded arguments after the program name. -> Plan; raises Reject."""
    p = Plan()
    prep, comp, link, inputs = [], [], [], []
    nopp = "-nopp" in args
    ppg = not nopp and ("-ppg" in args or "SMLRPPG" in env)
    args = [a for a in args if a not in ("-nopp", "-ppg")]
    asm = out = slpath = None
    target = "linux"
    given = False
    dontlink = toasm = verbose = gotstub = False
    uchar, uw, sw = False, None, None

    def pp(*u):
        (comp if nopp else prep).append(u)
    sysinc = "-SI" if nopp else "-isystem" if ppg else "-J"

    def choose(t):
        comp.append((CGEN.get(t, "-seg32"),))
        if t == "win":
            comp.append(("-winstack",))
        for d in TDEF.get(t, []):
            pp("-D", d)
        link.append((LFMT.get(t, "-" + t),))
    i = 0
    while i < len(args):
        a = args[i]
        nxt = args[i + 1] if i + 1 < len(args) else None
        if a in ("-v", "-verbose"):
            verbose = True
        elif a == "-asm" and nxt is not None:
            asm, i = nxt, i + 1
        elif a == "-o" and nxt is not None:
            out, i = nxt, i + 1
        elif a in LINK2 and nxt is not None:
            link.append((a, nxt))
            i += 1
        elif a == "-stub" and nxt is not None:
            gotstub = True
            link.append((a, nxt))
            i += 1
        elif a in CHAROPT:
            comp.append((a,))
            if a == "-unsigned-char":
                uchar = True
            elif a == "-signed-char":
                uchar = False
            elif a.endswith("signed-wchar"):
                uw = a == "-unsigned-wchar"
            elif a in ("-short-wchar", "-long-wchar"):
                sw = a == "-short-wchar"
        elif a in ("-norel", "-gui"):
            link.append((a,))
        elif a == "-nobss":
            comp.append((a,))
            link.append((a,))
        elif a[1:] in EXE and a[0] == "-":
            target, given = a[1:], True
            choose(target)
        elif a == "-c":
            dontlink = True
        elif a == "-S":
            dontlink = toasm = True
        elif a[:2] in ("-D", "-I") or a[:3] == "-SI":
            n = 3 if a[:3] == "-SI" else 2
            if len(a) > n:
                v = a[n:]
            elif nxt is not None:
                v, i = nxt, i + 1
            else:
                raise Reject("option")
            pp(sysinc if n == 3 else a[:2], v)
        elif a[:3] == "-SL" and (len(a) > 3 or nxt is not None):
            if len(a) > 3:
                slpath = a[3:]
            else:
                slpath, i = nxt, i + 1
        elif a[:1] == "-":
            raise Reject("option")
        else:
            inputs.append(a)
        i += 1
    if not inputs:
        raise Reject("no inputs")
    if not given:
        choose("linux")
    if asm is None:
        asm = env.get("SMLRASM", "nasm")
    if not dontlink and out is None:
        out = EXE[target]
    if target in LONGW:
        if uw is None:
            uw = False
            comp.append(("-signed-wchar",))
        if sw is None:
            sw = False
            comp.append(("-long-wchar",))
    else:
        uw = True if uw is None else uw
        sw = True if sw is None else sw
    archive = dontlink and not toasm and out is not None and len(out) > 2 and out[-2:] in (".a", ".A")
    inc, lib, stub = inc_lib(env, target, slpath, exists)
    if gotstub:
        stub = None
    if inc is not None:
        pp(sysinc, inc)
    if not nopp:
        bits = "16" if CGEN.get(target) == "-seg16" else "32"
        for d in ["__SMALLER_C__", "__SMALLER_C_%s__" % bits] + {"huge": ["__HUGE__"], "dosh": ["__HUGE__"], "unreal": ["__UNREAL__"], "dosu": ["__UNREAL__"]}.get(target, []) + [
                "__SMALLER_C_UCHAR__" if uchar else "__SMALLER_C_SCHAR__", "__SMALLER_C_UWCHAR__" if uw else "__SMALLER_C_SWCHAR__",
                "__SMALLER_C_WCHAR16__" if sw else "__SMALLER_C_WCHAR32__", "__SMALLER_PP__"]:
            pp("-D", d)
        comp.append(("-nopp",))
    prep0 = [("-E",), ("-undef",), ("-nostdinc",)] if ppg else [("-U", "__STDC_VERSION__"), ("-zI",)]
    steps, objs, arch, temps, outs = [], [], [], set(), set()
    p.badtype = None
    for n in inputs:
        ext = n.rsplit(".", 1)[-1].lower() if "." in n else ""
        stem = n[:-len(ext)] if ext else n
        ok = ext in ("c", "i", "o", "a") and len(n) > 2 or ext == "asm" and len(n) > 4
        if not ok:
            p.badtype = n
            break
        if ext in ("o", "a"):
            if not dontlink:
                objs.append(n)
            elif archive and ext == "o":
                arch.append(n)
            continue
        cur = n
        if ext == "c" and not nopp:
            iname = stem + "i"
            steps.append(Step("gcc" if ppg else "smlrpp", prep0 + prep + [("-o", iname), (cur,)], [cur], iname, True))
            temps.add(iname)
            cur = iname
        asmname = cur
        if ext != "asm":
            asmname = out if len(inputs) == 1 and out is not None and toasm else stem + "asm"
            steps.append(Step("smlrc", comp + [(cur,), (asmname,)], [cur], asmname, not toasm))
            (outs if toasm else temps).add(asmname)
        if toasm:
            continue
        one = len(inputs) == 1 and out is not None and dontlink and not archive
        obj = out if one else stem + "o"
        steps.append(Step(asm, [("-f", "elf"), (asmname,), ("-o", obj)], [asmname], obj, not dontlink or archive))
        if not dontlink:
            objs.append(obj)
            temps.add(obj)
        elif archive:
            arch.append(obj)
            temps.add(obj)
        else:
            outs.add(obj)
    if p.badtype is None:
        if not dontlink:
            steps.append(Step("smlrl", link + [(o,) for o in objs] + ([(lib,)] if lib else []) + ([("-stub", stub)] if stub else []) + [("-o", out)], objs, out, False))
            outs.add(out)
            if target in LONGW:
                steps.append(Step("chmod", [("+x",), (out,)], [out], out, False))
        elif archive:
            outs.add(out)
    p.steps, p.temps, p.outs, p.archive, p.out, p.inputs, p.objs = steps, temps, outs, arch if archive else None, out, inputs, objs
    p.user = prep
    p.verbose, p.target = verbose, target
    return p


# ---------------------------------------------------------------- stand-in tools

FAKES = ["smlrpp", "smlrc", "nasm", "yasm", "n2f", "my asm", "smlrl", "chmod", "gcc"]


def setup_fakes(tc):
    d = os.path.join(tc.dir, "fakes")
    with tc._lock():
        if not os.path.exists(d + "/ok"):
            os.makedirs(d, exist_ok=True)
            build.sh(["gcc", "-O1", "-w", "-static", build.ROOT + "/rt/fake.c", "-o", d + "/fake"])
            for f in FAKES:
                if not os.path.exists(d + "/" + f):
                    os.link(d + "/fake", d + "/" + f)
            open(d + "/ok", "w").close()
    return d


def put(work, files):
    """files {name: bytes}"""
    for n, b in files.items():
        p = os.path.join(work.encode(), n.encode("latin-1"))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)


def tree(work):
    """{relative name: bytes path}"""
    out, w = {}, work.encode()
    for d, _, fs in os.walk(w):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, w).decode("latin-1")] = p
    return out


def read_log(p):
    if not os.path.exists(p):
        return []
    b = open(p, "rb").read()
    out, i = [], 0
    while i < len(b):
        j = b.index(b"\n", i)
        n = int(b[i:j])
        i = j + 1
        v = []
        for _ in range(n):
            j = b.index(b"\0", i)
            v.append(b[i:j].decode("latin-1"))
            i = j + 1
        out.append(v)
    return out


def run_fake(tc, args, env, work, fail=None, hide=(), cpu=10):
    """Runs smlrcc in work with stand-in tools. -> (Result, log)"""
    d = os.path.join(tc.dir, "fakes")
    e = {k: v for k, v in env.items() if k[0] != "*"}
    path = d
    if hide:
        path = work + ".p"
        os.makedirs(path, exist_ok=True)
        for f in os.listdir(path):
            os.unlink(os.path.join(path, f))
        for f in FAKES:
            if f not in hide:
                os.symlink(os.path.join(d, f), os.path.join(path, f))
    log, cnt = work + ".log", work + ".cnt"
    for p in (log, cnt):
        if os.path.exists(p):
            os.unlink(p)
    e.update(PATH=path, FAKE_LOG=log, FAKE_CNT=cnt, LC_ALL="C")
    if fail:
        e["FAKE_FAIL"] = fail
    r = core.run([tc.tool("smlrcc")] + [a.encode("latin-1") for a in args], cwd=work, env={k: v.encode("latin-1") for k, v in e.items()}, cpu=cpu)
    return r, read_log(log)


def units_ok(step, got):
    """None or what differs between a step of the plan and the logged arguments (independent of the order of unrelated options)."""
    want = step.argv()
    if got == want:
        return None
    if got[0] != want[0]:
        return "tool %r instead of %r" % (got[0], want[0])
    if sorted(got) != sorted(want):
        miss = list(want)
        extra = []
        for g in got:
            if g in miss:
                miss.remove(g)
            else:
                extra.append(g)
        return "%s gets %r instead of %r" % (want[0], extra[:3], miss[:3])
    # the same arguments: keep the order of what order matters to
    for key in ("-D", "-I", "-J", "-SI", "-isystem", "-o", "-map", "-entry", "-stub", "-origin", "-stack"):
        a = [got[i + 1] for i in range(len(got) - 1) if got[i] == key]
        b = [want[i + 1] for i in range(len(want) - 1) if want[i] == key]
        if a != b:
            return "%s gets %s operands %r instead of %r" % (want[0], key, a[:4], b[:4])
    pos = [x for x in got if x in step.ins]
    if pos != [x for x in want if x in step.ins]:
        return "%s gets its inputs in the order %r" % (want[0], pos)
    if step.tool == "smlrc" and got[-2:] != want[-2:]:
        return "smlrc: input and output are %r" % got[-2:]
    return None
