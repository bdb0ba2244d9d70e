"""Compiles C text with the tree's tools for a target and runs it. Every step that fails is reported, never hidden."""
import os, shutil, subprocess

from . import core
from .core import run, Infra

RT = os.path.join(core.ROOT, "rt")

DOSBOX_CONF = """[sdl]
output=surface
[dosbox]
memsize=16
[cpu]
core=normal
cputype=pentium_slow
cycles=max
[mixer]
nosound=true
[speaker]
pcspeaker=false
[autoexec]
"""


class Target:
    def __init__(self, name, isz, flags=(), has_long=True, has_float=True, dos=False):
        self.name, self.isz, self.flags, self.has_long, self.has_float, self.dos = name, isz, list(flags), has_long, has_float, dos


TARGETS = {
    "linux": Target("linux", 4, ["-seg32"]),
    "tiny": Target("tiny", 2, ["-seg16"], has_long=False, has_float=False, dos=True),
    "small": Target("small", 2, ["-seg16"], has_long=False, has_float=False, dos=True),
    "huge": Target("huge", 4, ["-huge"], dos=True),
    "unreal": Target("unreal", 4, ["-unreal"], dos=True),
    "mips": Target("mips", 4, [], has_float=False),
}

OUT_C = """#include <stdio.h>
void out(unsigned v){int i;char b[10];for(i=0;i<8;i++)b[i]="0123456789abcdef"[(v>>(28-4*i))&15];b[8]='\\n';fwrite(b,1,9,stdout);}
"""


def setup(tc, *names):
    """Assembles the runtimes once per tree (they do not depend on it, but live beside it)."""
    d = os.path.join(tc.dir, "rt")
    os.makedirs(d, exist_ok=True)

    def have(n):
        return os.path.exists(os.path.join(d, n))
    import fcntl
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for n in names:
            if n == "linux" and not have("rt32.o"):
                core.build.sh(["nasm", "-f", "elf", RT + "/rt32.asm", "-o", d + "/rt32.t"])
                os.rename(d + "/rt32.t", d + "/rt32.o")
            elif n in ("tiny", "small") and not have("rt16.o"):
                core.build.sh(["nasm", "-f", "elf", RT + "/rt16.asm", "-o", d + "/rt16.t"])
                os.rename(d + "/rt16.t", d + "/rt16.o")
            elif n == "mips" and not have("rtmips.o"):
                core.build.sh(["mipsel-linux-gnu-gcc", "-c", "-mno-abicalls", "-march=mips32r2", RT + "/rtmips.S", "-o", d + "/rtmips.t"])
                os.rename(d + "/rtmips.t", d + "/rtmips.o")
            elif n == "gcc" and not have("rtgcc.o"):
                core.build.sh(["gcc", "-m32", "-O1", "-ffreestanding", "-fno-pic", "-fno-stack-protector", "-c", RT + "/rtgcc.c", "-o", d + "/rtgcc.t"])
                os.rename(d + "/rtgcc.t", d + "/rtgcc.o")
            elif n in ("huge", "unreal"):
                lib = {"huge": "lcdh", "unreal": "lcdu"}[n]
                tc.need(lib)
    return d


class Step(Exception):
    """A tool of the tree refused or crashed on input that it has to accept."""

    def __init__(self, step, r):
        self.step, self.r = step, r
        Exception.__init__(self, "%s failed: rc=%s\n%s" % (step, r.rc, (r.out + r.err)[-800:].decode("latin-1")))


def _do(step, cmd, cwd, env=None, ok=(0,), **kw):
    r = run(cmd, cwd=cwd, env=env, **kw)
    if r.rc == "wall":
        raise Infra("%s: wall clock" % step)
    if r.rc not in ok:
        raise Step(step, r)
    return r


def smlrc(tc, target, src, work, name="t", flags=()):
    """C text -> assembly file name."""
    t = TARGETS[target]
    cfile = os.path.join(work, name + ".c")
    if src is not None:
        with open(cfile, "w", encoding="latin-1") as f:
            f.write(src)
    asm = os.path.join(work, name + (".s" if target == "mips" else ".asm"))
    tool = "smlrcmips" if target == "mips" else "smlrc"
    _do("smlrc", [tc.tool(tool), *t.flags, *flags, cfile, asm], work)
    return asm


def nasm(asm, work, obj=None):
    obj = obj or asm.rsplit(".", 1)[0] + ".o"
    _do("nasm", ["nasm", "-f", "elf", asm, "-o", obj], work, cpu=60)
    return obj


def link_linux(tc, objs, work, out, extra=()):
    _do("smlrl", [tc.tool("smlrl"), "-elf", *extra, *objs, "-o", out], work)
    os.chmod(out, 0o755)
    return out


def compile_for(tc, target, src, work, name="t", flags=()):
    """-> path of the executable."""
    d = os.path.join(tc.dir, "rt")
    if target == "linux":
        o = nasm(smlrc(tc, target, src, work, name, flags), work)
        return link_linux(tc, [o, d + "/rt32.o"], work, os.path.join(work, name + ".exe"))
    if target in ("tiny", "small"):
        o = nasm(smlrc(tc, target, src, work, name, flags), work)
        out = os.path.join(work, name.upper() + (".COM" if target == "tiny" else ".EXE"))
        _do("smlrl", [tc.tool("smlrl"), "-" + target, o, d + "/rt16.o", "-o", out], work)
        return out
    if target in ("huge", "unreal"):
        with open(os.path.join(work, name + ".c"), "w", encoding="latin-1") as f:
            f.write(src)
        with open(os.path.join(work, "out_.c"), "w") as f:
            f.write(OUT_C)
        out = os.path.join(work, name.upper() + ".EXE")
        _do("smlrcc", [tc.tool("smlrcc"), "-dos" + target[0], *flags, name + ".c", "out_.c", "-o", out], work, tc.env())
        return out
    if target == "mips":
        s = smlrc(tc, target, src, work, name, flags)
        out = os.path.join(work, name + ".elf")
        _do("mips-as", ["mipsel-linux-gnu-gcc", "-mno-abicalls", "-static", "-nostdlib", "-march=mips32r2", s,
                        d + "/rtmips.o", "-o", out], work, cpu=60)
        return out
    raise KeyError(target)


def run_native(exe, work, cpu=10, **kw):
    return run([exe], cwd=work, cpu=cpu, **kw)


def run_dos(work, exes, cpu=100):
    """exes: names (8.3, upper case) in work. -> {exe: bytes or None}. One DOSBox session."""
    bat = ["@echo off"]
    for e in exes:
        b = e.rsplit(".", 1)[0]
        bat.append("%s > %s.TXT" % (e, b))
        bat.append("if errorlevel 1 echo BAD> %s.RC" % b)
    bat += ["echo DONE> ALL.OK", "exit"]
    with open(os.path.join(work, "RUN.BAT"), "w", newline="\r\n") as f:
        f.write("\n".join(bat) + "\n")
    dosbox(work, cpu)
    res = {}
    for e in exes:
        p = os.path.join(work, e.rsplit(".", 1)[0] + ".TXT")
        res[e] = open(p, "rb").read() if os.path.exists(p) else None
    res["ok"] = os.path.exists(os.path.join(work, "ALL.OK"))
    return res


def dosbox(work, cpu=100):
    """Runs RUN.BAT in work. -> whether it got to its end."""
    with open(os.path.join(work, "dosbox.conf"), "w") as f:
        f.write(DOSBOX_CONF)
    env = {"PATH": "/usr/bin:/bin", "HOME": work, "SDL_VIDEODRIVER": "dummy", "SDL_AUDIODRIVER": "dummy"}
    r = run(["dosbox", "-conf", "dosbox.conf", "-c", "mount c " + work, "-c", "c:", "-c", "run.bat", "-c", "exit"],
            cwd=work, env=env, cpu=cpu, wall=cpu * 4)
    if r.rc == "wall":
        raise Infra("dosbox: wall clock")
    return os.path.exists(os.path.join(work, "ALL.OK"))


def gcc_ref(tc, src, work, name="ref", flags=()):
    d = os.path.join(tc.dir, "rt")
    c = os.path.join(work, name + ".c")
    with open(c, "w", encoding="latin-1") as f:
        f.write(src)
    exe = os.path.join(work, name + ".gcc")
    r = run(["gcc", "-m32", "-w", "-std=gnu99", "-O0", "-fwrapv", "-fno-strict-aliasing", "-ffreestanding", "-nostdlib", "-static",
             "-fno-pic", "-no-pie", "-fno-stack-protector", "-fno-builtin", "-mfpmath=sse", "-msse2", *flags, c, d + "/rtgcc.o", "-o", exe], cwd=work, cpu=60)
    if r.rc:
        raise Infra("gcc: " + r.err.decode("latin-1")[-1500:])
    return exe


HOSTED = ("win", "macos", "dosp")     # run natively by rt/oshost.c, which stands in for the loader and the operating system


def oshost(tc):
    """Builds the stand-in loader. -> its path"""
    import fcntl, hashlib
    src = os.path.join(RT, "oshost.c")
    with open(src, "rb") as f:
        h = hashlib.md5(f.read()).hexdigest()[:8]
    d = os.path.join(tc.dir, "rt")
    exe = os.path.join(d, "oshost." + h)
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(exe):
                core.build.sh(["gcc", "-m32", "-O1", "-w", "-ffreestanding", "-fno-builtin", "-fno-stack-protector", "-fno-pie", "-no-pie", "-static",
                               "-nostdlib", "-fcf-protection=none", "-Wl,-Ttext-segment=0x70000000", src, "-o", exe + ".t"])
                os.rename(exe + ".t", exe)
    return exe


def run_hosted(tc, exe, work, args=(), cpu=20, base=None, env=None, **kw):
    """A PE, Mach-O or DPMI executable under the stand-in loader. base: where a PE is loaded."""
    e = dict(env if env is not None else {"PATH": "/usr/bin:/bin"})
    if base is not None:
        e["OSHOST_BASE"] = "%x" % base
    r = run([oshost(tc), exe, *args], cwd=work, cpu=cpu, env=e, **kw)
    if r.rc == 97 and r.err.startswith(b"oshost: cannot map"):
        raise Infra("oshost: " + r.err.decode("latin-1"))
    return r


def parse_words(out):
    res = []
    for w in out.split():
        try:
            res.append(int(w, 16))
        except ValueError:
            res.append(w.decode("latin-1"))
    return res
