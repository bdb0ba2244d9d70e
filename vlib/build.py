"""Builds the Smaller C toolchain from /repo's working tree into /verif/.build/<content hash>/.

Nothing is written under /repo. Components are built lazily and kept per content hash; a stale tree is never reused,
because the hash covers every source file that goes into the tools, the libraries and the headers.
"""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
UCPP = "arith assert cpp eval lexer macro mem nhash".split()
LIBS = ("lcdh", "lcdu", "lcds", "lcw", "lcl", "lcdp", "lcm")
SKIP = {"binl", "binw", "bind", "bindp", "binm", "lib", "tests", "doc"}
VERSION = "3"  # bump when the recipe below changes


def _files():
    top = os.path.join(REPO, "v0100")
    out = []
    for d, dirs, files in os.walk(top):
        if d == top:
            dirs[:] = [x for x in dirs if x not in SKIP]
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".o", ".i")):
                continue
            out.append(os.path.relpath(os.path.join(d, f), top))
    return top, out


def tree_hash():
    top, files = _files()
    h = hashlib.sha256(VERSION.encode())
    for f in files:
        with open(os.path.join(top, f), "rb") as fp:
            data = fp.read()
        h.update(f.encode() + b"\0" + str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       stdin=subprocess.DEVNULL)
    if p.returncode:
        raise BuildError("%s => %d\n%s" % (" ".join(cmd), p.returncode, p.stdout.decode("latin-1")[-3000:]))
    return p.stdout


class Toolchain:
    """Paths of one built tree. need(...) builds components."""

    def __init__(self):
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD, self.hash)
        self.src = os.path.join(self.dir, "src")
        self.bin = os.path.join(self.dir, "bin")
        self.asan = os.path.join(self.dir, "asan")
        self.smlrc_home = os.path.join(self.dir, "smlrc")
        self.inc = os.path.join(self.smlrc_home, "include")
        self.lib = os.path.join(self.smlrc_home, "lib")
        os.makedirs(BUILD, exist_ok=True)
        self._evict()
        with self._lock():
            if not os.path.exists(os.path.join(self.dir, "src.ok")):
                self._mirror()

    def _lock(self):
        f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(f, fcntl.LOCK_EX)
        return f

    def _evict(self, keep=4):
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != ".lock" and d != self.hash]
        ds = [d for d in ds if os.path.isdir(d)]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-keep] if len(ds) > keep else []:
            shutil.rmtree(d, ignore_errors=True)

    def _mirror(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.bin)
        os.makedirs(self.lib)
        top, files = _files()
        for f in files:
            dst = os.path.join(self.src, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(os.path.join(top, f), dst)
        shutil.copytree(os.path.join(self.src, "include"), self.inc)
        open(os.path.join(self.dir, "src.ok"), "w").close()

    def tool(self, name):
        return os.path.join(self.bin, name)

    def env(self, **kw):
        e = {"PATH": self.bin + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C",
             "HOME": "/nonexistent", "SMLRC": self.smlrc_home, "SHELL": "/bin/sh"}
        e.update(kw)
        return e

    # component -> (command relative to src, output)
    def _tool_cmd(self, name, out, extra=()):
        s = self.src
        base = ["gcc", "-w", "-O1", *extra]
        host = ["-DHOST_LINUX", "-DPATH_PREFIX=\"%s\"" % os.path.dirname(self.smlrc_home)]
        if name == "smlrc":
            return base + [s + "/smlrc.c", "-o", out]
        if name == "smlrcmips":
            return base + ["-DMIPS", s + "/smlrc.c", "-o", out]
        if name == "smlrcc":
            return base + host + [s + "/smlrcc.c", "-o", out]
        if name in ("smlrl", "n2f", "demz"):
            return base + [s + "/%s.c" % name, "-o", out]
        if name == "smlrpp":
            return base + ["-DSTAND_ALONE", "-DUCPP_CONFIG", *[s + "/ucpp/%s.c" % x for x in UCPP], "-o", out]
        raise KeyError(name)

    def need(self, *comps):
        """comps: tool names, 'asan:<tool>', library names (lcl, lcdh...), 'tools' for the usual ones."""
        want = []
        for c in comps:
            if c == "tools":
                want += ["smlrc", "smlrl", "smlrcc", "smlrpp"]
            else:
                want.append(c)
        libs = [c for c in want if c in LIBS]
        if libs:
            want = ["smlrc", "smlrl", "smlrcc", "smlrpp"] + want
            if "lcdp" in libs:
                want.append("dpstub")
        done = lambda c: os.path.join(self.dir, "ok." + c.replace(":", "_"))
        with self._lock():
            todo = [c for c in dict.fromkeys(want) if not os.path.exists(done(c))]
            if not todo:
                return self
            os.makedirs(self.asan, exist_ok=True)

            def one(c):
                if c.startswith("asan:"):
                    t = c[5:]
                    sh(self._tool_cmd(t, os.path.join(self.asan, t),
                                      ("-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                                       "-fno-sanitize=alignment,shift,signed-integer-overflow,float-cast-overflow,"
                                       "pointer-overflow,nonnull-attribute")))
                elif c in LIBS:
                    self._lib(c)
                elif c == "dpstub":
                    d = os.path.join(self.dir, "b.dpstub")
                    os.makedirs(d, exist_ok=True)
                    shutil.copy(self.src + "/srclib/dpstub.asm", d)
                    sh([self.tool("smlrcc"), "-small", "dpstub.asm", "-o", "dpstub.exe"], cwd=d, env=self.env())
                    shutil.copy(d + "/dpstub.exe", self.lib)
                    shutil.rmtree(d)
                else:
                    sh(self._tool_cmd(c, self.tool(c)))
                open(done(c), "w").close()

            tools = [c for c in todo if c not in LIBS and c != "dpstub"]
            rest = [c for c in todo if c in LIBS or c == "dpstub"]
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(one, tools))
                list(ex.map(one, rest))
        return self

    def _lib(self, name):
        d = os.path.join(self.dir, "b." + name)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(self.src + "/srclib", d)
        sh([self.tool("smlrcc"), "-SI", self.inc, "-I", ".", "@%s.txt" % name], cwd=d, env=self.env())
        shutil.copy(os.path.join(d, name + ".a"), self.lib)
        shutil.rmtree(d)


if __name__ == "__main__":
    tc = Toolchain()
    tc.need("tools", "n2f", "smlrcmips", "demz", *LIBS)
    print(tc.dir)
