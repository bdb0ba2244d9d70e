"""Call server: drives functions of the library, compiled by the tree's tools, with generated calls, and reads back what they did."""
import hashlib, os, struct, fcntl
from . import core, targets
from .core import run, Infra

F32 = ("get_errno set_errno f_stdin f_stdout f_stderr w_div w_ldiv va_vsprintf va_vsnprintf va_vfprintf va_vsscanf va_vfscanf m_getc m_putc m_feof "
       "m_ferror byte_at word_at put_word mod16 fillp chkp chkz fillq sumq sel c_rand randmax sumrand same_ptr getclog cset cbadget cmpc cmp1 cmp1r cmp2 cmp4 cmpm cmp0 cmps "
       "isalnum isalpha isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper "
       "memchr memcmp memcpy memmove memset strcat strchr strcmp strcoll strcpy strcspn strlen strncat strncmp strncpy strpbrk strrchr strspn strstr strtok strxfrm "
       "sprintf snprintf fprintf printf sscanf fscanf "
       "fopen freopen fflush remove rename fclose fread fgetc fgets ungetc fwrite fputc fputs fgetpos fsetpos rewind clearerr setvbuf setbuf fileno tmpnam tmpfile "
       "asctime strftime malloc calloc free realloc abs div atoi srand bsearch qsort getenv "
       "open creat close read write unlink isatty __lseekp ").split()
LONG = ("labs atol strtol strtoul strtof strtod atof ftell fseek lseek time gmtime localtime mktime ctime difftime "
        "frexp frexpf ldexp ldexpf modf modff fabs fabsf ceil ceilf floor floorf round roundf trunc truncf sqrt sqrtf hypot hypotf exp expf exp2 exp2f expm1 expm1f pow powf "
        "log logf log2 log2f log10 log10f sin sinf cos cosf tan tanf atan2 atan2f atan atanf acos acosf asin asinf fmod fmodf cosh coshf sinh sinhf tanh tanhf").split()
LNG = ("__lngFromUnsigned __lngFromSigned __lngToUnsigned __lngToSigned __lngAdd __lngSub __lngEq __lngUnsignedLess __lngSignedLess __lngLessThan0 __ftell __fseek").split()
NAMES = F32 + LONG + LNG
NAMES16 = [n for n in F32 + LNG if n != "w_ldiv"]
IDX = {n: i for i, n in enumerate(NAMES)}
IDX16 = {n: i for i, n in enumerate(NAMES16)}


def A(off):
    return (1, off)


def R(k):
    return (2, k)


def FP(name):
    return (3, name)


class Script:
    def __init__(self, bits16=False):
        self.b = bytearray()
        self.plan = []     # what comes back: ("r",) or ("d", n)
        self.idx = IDX16 if bits16 else IDX
        self.mask = 0xffff if bits16 else 0xffffffff

    def w(self, off, data):
        if data:
            self.b += struct.pack("<cHH", b"W", off, len(data)) + bytes(data)

    def fill(self, off, n, v):
        self.b += struct.pack("<cHHB", b"F", off, n, v)

    def d(self, off, n):
        self.b += struct.pack("<cHH", b"D", off, n)
        self.plan.append(("d", n))
        return len(self.plan) - 1

    def call(self, fn, *args, reg=0):
        self.b += struct.pack("<cHBB", b"C", self.idx[fn], reg, len(args))
        for a in args:
            t, v = a if isinstance(a, tuple) else (0, a)
            if t == 3:
                v = self.idx[v]
            self.b += struct.pack("<BI", t, v & 0xffffffff)
        self.plan.append(("r",))
        return len(self.plan) - 1

    def add(self, reg, v):
        self.b += struct.pack("<cBI", b"A", reg, v & 0xffffffff)

    def mark(self):
        self.b += b"P"


SMLRC_FLAGS = {"linux": ["-linux"], "huge": ["-dosh"], "unreal": ["-dosu"], "small": ["-doss"], "win": ["-win"], "macos": ["-macos"], "dosp": ["-dosp"]}
LIBOF = {"linux": "lcl", "huge": "lcdh", "unreal": "lcdu", "small": "lcds", "win": "lcw", "macos": "lcm", "dosp": "lcdp"}


def asm_lib(tc, name, lib):
    """The library, built with another assembler. -> directory with it"""
    d = os.path.join(tc.dir, "asm." + name)
    os.makedirs(d, exist_ok=True)
    tc.need(lib, "n2f")
    with open(os.path.join(d, lib + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, lib + ".a")):
            import shutil
            w = os.path.join(d, "b." + lib)
            shutil.rmtree(w, ignore_errors=True)
            shutil.copytree(tc.src + "/srclib", w)
            r = run([tc.tool("smlrcc"), "-asm", name, "-SI", tc.inc, "-I", ".", "@%s.txt" % lib], cwd=w, env=tc.env(), cpu=120, wall=300)
            if r.rc:
                raise targets.Step("smlrcc -asm %s %s" % (name, lib), r)
            os.rename(os.path.join(w, lib + ".a"), os.path.join(d, lib + ".a"))
            shutil.rmtree(w)
            if lib == "lcdp":
                shutil.copy(os.path.join(tc.lib, "dpstub.exe"), d)
    return d


def srvdir(tc, target):
    with open(os.path.join(core.ROOT, "rt", "srv.c"), "rb") as f:
        h = hashlib.md5(f.read() + repr((NAMES, NAMES16)).encode()).hexdigest()[:8]
    return os.path.join(tc.dir, "srv.%s.%s" % (target, h))


def setup(tc, target="linux"):
    """Builds the server for a target (or target@assembler) once per tree."""
    base, _, asm = target.partition("@")
    tc.need(LIBOF[base])
    d = srvdir(tc, target)
    exe = os.path.join(d, "SRV.EXE")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        with open(os.path.join(core.ROOT, "rt", "srv.c")) as f:
            src = f.read()
        with open(os.path.join(d, "srv.c"), "w") as f:
            f.write(src)
        for fn, names in (("srvtab.inc", NAMES), ("srvtab16.inc", NAMES16)):
            with open(os.path.join(d, fn), "w") as f:
                f.write("".join("(FN)%s,\n" % n for n in names))
        flags = ["-DGUARD"] if base == "linux" else []
        if asm:
            tc.need("n2f")
            flags += ["-asm", asm]
            # two libraries are beyond fasm: kernel32's files use nasm's "align 2, db 0", and malloc.c for macOS has 64 MB of bss
            if asm != "n2f" or base not in ("win", "macos"):
                flags += ["-SL", asm_lib(tc, asm, LIBOF[base])]
        if base == "macos":
            flags += ["-origin", "0x100000"]      # the kernel keeps the pages below 64 KB to itself
        r = run([tc.tool("smlrcc"), *SMLRC_FLAGS[base], *flags, "-I", ".", "srv.c", "-o", "T.EXE"], cwd=d, env=tc.env(), cpu=120, wall=300)
        if r.rc:
            if asm:
                raise targets.Step("smlrcc -asm " + asm, r)
            raise core.build.BuildError(repr(r))
        os.rename(os.path.join(d, "T.EXE"), exe)
    return exe


def setup_all(tc, tg):
    from concurrent.futures import ThreadPoolExecutor
    tc.need(*[LIBOF[t.split("@")[0]] for t in tg])
    if any(t.split("@")[0] in targets.HOSTED for t in tg):
        targets.oshost(tc)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda t: setup(tc, t), tg))


class Out:
    def __init__(self, raw, plan, rc, mask):
        self.rc, self.mask = rc, mask
        self.base = struct.unpack("<I", raw[:4])[0] if len(raw) >= 4 else None
        self.v = []
        p = 4
        for x in plan:
            n = 4 if x[0] == "r" else x[1]
            b = raw[p:p + n]
            if len(b) < n:
                break
            p += n
            self.v.append(struct.unpack("<I", b)[0] if x[0] == "r" else b)

    def ok(self, k):
        return k < len(self.v)

    def i(self, k):
        v = self.v[k] & self.mask
        return v - self.mask - 1 if v > self.mask >> 1 else v

    def u(self, k):
        return self.v[k] & self.mask

    def off(self, k):
        """Pointer result as an arena offset; None for a null pointer."""
        return None if self.u(k) == 0 else (self.v[k] - self.base) & self.mask

    def d(self, k):
        return self.v[k]


def execute(tc, script, work, target="linux", cpu=20, stdin=b"", env=None, data=3 << 30):
    with open(os.path.join(work, "srv.in"), "wb") as f:
        f.write(script.b)
    exe = os.path.join(srvdir(tc, target), "SRV.EXE")
    target = target.split("@")[0]
    outp = os.path.join(work, "srv.out")
    if os.path.exists(outp):
        os.remove(outp)
    if target == "linux":
        r = run([exe], cwd=work, cpu=cpu, stdin=stdin, data=data, env=env if env is not None else {"PATH": "/usr/bin:/bin"})
        if r.rc == "wall":
            raise Infra("srv: wall clock")
        rc = r.rc
    elif target in targets.HOSTED:
        r = targets.run_hosted(tc, exe, work, cpu=cpu, stdin=stdin, env=env)
        if r.rc == "wall":
            raise Infra("srv: wall clock")
        rc = r.rc if not r.err.startswith(b"oshost:") else r.err.decode("latin-1").strip()
    else:
        import shutil
        shutil.copy(exe, os.path.join(work, "SRV.EXE"))
        if os.path.exists(os.path.join(work, "srv.in")):
            os.rename(os.path.join(work, "srv.in"), os.path.join(work, "SRV.IN"))
        res = targets.run_dos(work, ["SRV.EXE"])
        rc = 0 if res["ok"] else "hung"
        for n in ("SRV.OUT", "srv.out"):
            if os.path.exists(os.path.join(work, n)):
                outp = os.path.join(work, n)
    raw = open(outp, "rb").read() if os.path.exists(outp) else b""
    return Out(raw, script.plan, rc, script.mask)
