"""Source-text fuzzing: seeds, token- and byte-level mutators, sanitizer verdicts."""
import os, random, re, signal

from . import badc, cprog, core, exprcheck
from .core import run, Infra

TOK = re.compile(rb'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\.?\d[\w.]*|/\*.*?\*/|//[^\n]*|<<=|>>=|\.\.\.|[-+*/%&|^<>=!]=|&&|\|\||\+\+|--|->|<<|>>|##|\s+|.', re.S)
KW = (b"break case char continue default do else extern for if int return signed sizeof static unsigned void while asm auto const double enum float goto inline long register restrict short struct switch typedef union volatile "
      b"_Bool _Complex _Imaginary interrupt __interrupt __func__ __FILE__ __LINE__ main pack push pop once line define undef include ifdef ifndef if else elif endif error pragma defined a b c x y S T").split()
PUN = b"+ - * / % & | ^ ! ~ < > = ( ) [ ] { } , . ; : ? ' \" # ## \\ @ $ ` ++ -- -> << >> <= >= == != && || += -= *= /= %= &= |= ^= <<= >>= ... // /* */".split(b" ")
NUM = [b"0", b"1", b"2", b"-1", b"255", b"256", b"32767", b"32768", b"65535", b"65536", b"2147483647", b"2147483648u", b"4294967295", b"0x7fffffff", b"0xffffffff", b"1.5", b"1e38", b"1e-45", b"3.4e39", b"0x", b"09", b"'a'", b"L'a'", b"'\\xff'", b"'\\0'", b'"str"', b'L"str"', b'""', b"1e99999999", b"0xfffffff0", b"1073741824", b"0x40000000"]
DIRS = [b"#define X 1\n", b"#define X X X\n", b"#define F(a,b) a##b #a\n", b"#undef X\n", b"#ifdef X\n", b"#ifndef X\n", b"#else\n", b"#endif\n", b'#include "t.c"\n', b'#include "h.h"\n', b"#pragma pack(1)\n", b"#pragma pack(push,2)\n", b"#pragma pack(pop)\n", b'#line 5 "q.c"\n', b"# 7 \"x\" 1\n", b"#if 1\n", b"#elif 0\n", b"#error x\n", b"#\n", b"#define\n", b"#include\n", b"#line\n", b"#pragma\n"]

_SEEDS = {}


def seeds(tc):
    """Real sources of the tree as token lists (windows are taken from them)."""
    k = tc.src
    if k not in _SEEDS:
        res = []
        for d in ("", "tests", "srclib", "include"):
            p = os.path.join(tc.src, d)
            for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
                q = os.path.join(p, f)
                if f.endswith((".c", ".h")) and os.path.isfile(q):
                    res.append(open(q, "rb").read()[:300000])
        _SEEDS[k] = res
    return _SEEDS[k]


def base(rng, sds):
    r = rng.random()
    if r < 0.3:
        cfg = exprcheck.cfg_of("linux", False)
        return cprog.render(cfg, cprog.PGen(rng, cfg, rng.choice([8, 20])).program()).encode("latin-1")
    if r < 0.55:
        out = [badc.PRELUDE + badc.PRELUDE_F]
        for i in range(rng.randrange(1, 10)):
            k = rng.random()
            if k < 0.35:
                out.append(rng.choice(rng.choice(badc.F)))
            elif k < 0.7:
                out.append("int zq%d(void) { %s\n return 0; }" % (i, rng.choice(rng.choice(badc.S))))
            elif k < 0.95:
                out.append("int zq%d(void) { %s;\n return 0; }" % (i, rng.choice(rng.choice(badc.E + badc.EF))))
            else:
                out.append(rng.choice(rng.choice(badc.P)))
        return "\n".join(out).encode("latin-1")
    if r < 0.92 and sds:
        s = rng.choice(sds)
        lines = s.split(b"\n")
        n = rng.choice([5, 20, 80, 300])
        i = rng.randrange(max(1, len(lines) - n))
        return b"\n".join(lines[i:i + n]) + b"\n"
    return b" ".join(rng.choice(rng.choice([KW, PUN, NUM])) for _ in range(rng.randrange(1, 80)))


def token(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice(PUN)
    if r < 0.7:
        return rng.choice(KW)
    if r < 0.85:
        return rng.choice(NUM)
    if r < 0.95:
        return b"\n" + rng.choice(DIRS)
    if r < 0.97:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 5)))
    return rng.choice([b"a", b"z", b"_", b"A9"]) * rng.choice([1, 30, 62, 63, 64, 65, 127, 128, 300, 600])


def mutate(rng, s, sds):
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6, 15])):
        r = rng.random()
        if r < 0.75:
            t = TOK.findall(s)
            if not t:
                t = [b" "]
            i = rng.randrange(len(t))
            k = rng.randrange(12)
            if k == 0:
                del t[i]
            elif k == 1:
                t.insert(i, token(rng))
            elif k == 2:
                t[i] = token(rng)
            elif k == 3:
                j = rng.randrange(len(t))
                t[i], t[j] = t[j], t[i]
            elif k == 4:
                n = rng.randrange(1, 20)
                t[i:i] = t[i:i + n]
            elif k == 5:
                n = rng.choice([1, 2, 4])
                t[i:i + n] = t[i:i + n] * rng.choice([2, 5, 20, 70, 130, 300, 1500])
            elif k == 6:
                n = rng.randrange(1, 30)
                del t[i:i + n]
            elif k == 7:
                t[i:i] = [rng.choice(DIRS) if i == 0 or t[i - 1].endswith(b"\n") else b"\n" + rng.choice(DIRS)]
            elif k == 8:
                o = TOK.findall(base(rng, sds))
                j = rng.randrange(len(o))
                t[i:i] = o[j:j + rng.randrange(1, 40)]
            elif k == 9:
                t[i:i] = [rng.choice([b"(", b"{", b"[", b"*", b"-", b"!", b"&", b"1+", b"a?", b"1,", b"if(x)", b"while(x)", b"do ", b"(int)", b"sizeof ", b"struct S{", b"f(", b"a[", b"{{", b"a=", b"1?2:", b"switch(x){", b"for(;;)", b"else ", b"0||", b"1&&", b"int*(", b"x.y.", b"p->", b"a++"]) * rng.choice([3, 17, 40, 100, 130, 200, 1000, 5000])]
            elif k == 10:
                t[i:i] = [genmany(rng)]
            else:
                t[i] = t[i] + t[i]
            s = b"".join(t)
        else:
            if not s:
                s = b"x"
            i = rng.randrange(len(s))
            k = rng.randrange(8)
            if k == 0:
                s = s[:i] + bytes([rng.randrange(256)]) + s[i + 1:]
            elif k == 1:
                s = s[:i] + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9))) + s[i:]
            elif k == 2:
                s = s[:i]
            elif k == 3:
                s = s[:i] + s[i + rng.randrange(1, 50):]
            elif k == 4:
                s = s[:i] + b"\0" * rng.choice([1, 1, 2, 100]) + s[i:]
            elif k == 5:
                s = s.replace(b"\n", rng.choice([b"\r\n", b"\r", b"\\\n", b"\n\n", b"\\\r\n", b"\f", b" "]))
            elif k == 6:
                j = rng.randrange(len(s))
                s = s[:i] + s[j:j + rng.choice([1, 10, 100, 1000])] + s[i:]
            else:
                s = s[:i] + rng.choice([b"\xff", b"\x80", b"\x1a", b"\xef\xbb\xbf", b"??/", b"??=", b"\\", b"'", b'"', b"/*", b"//", b"\t" * 600, b" " * 600, b"\n" * 300, b"\\u0041", b"%s%n", b"\x7f"]) + s[i:]
        if len(s) > 200000:
            s = s[:200000]
    return s


def genmany(rng):
    n = rng.choice([10, 17, 33, 65, 129, 200, 500])
    k = rng.randrange(14)
    if k == 0:
        return b" ".join(b"int v%d;" % i for i in range(n))
    if k == 1:
        return b"switch(x){" + b"".join(b"case %d:;" % i for i in range(n)) + b"}"
    if k == 2:
        return b"".join(b"goto l%d;" % i for i in range(n))
    if k == 3:
        return b"".join(b"l%d:;" % i for i in range(n))
    if k == 4:
        return b"f(" + b",".join(b"%d" % i for i in range(n)) + b");"
    if k == 5:
        return b"enum{" + b",".join(b"e%d" % i for i in range(n)) + b"};"
    if k == 6:
        return b"struct Q{" + b"".join(b"int m%d;" % i for i in range(n)) + b"};"
    if k == 7:
        return b"int f(" + b",".join(b"int p%d" % i for i in range(n)) + b");"
    if k == 8:
        return b"int a" + b"[2]" * n + b";"
    if k == 9:
        return b"\n" + b"".join(b"#define M%d M%d+1\n" % (i, i + 1) for i in range(n)) + b"int z=M0;"
    if k == 10:
        return b"\n" + b"#ifdef A\n" * n
    if k == 11:
        return b'"' + b"s" * n * 10 + b'"'
    if k == 12:
        return b"\n" + b"#pragma pack(push)\n" * n
    return b"int a[]={" + b",".join(b"%d" % i for i in range(n)) + b"};"


def gen(rng, sds):
    return mutate(rng, base(rng, sds), sds)


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1",
            "PATH": "/usr/bin:/bin", "LC_ALL": "C"}


def sanitized(tc, tool, args, work, cpu=20, stdin=None, env=None):
    """-> (Result, complaint or None)"""
    r = run([os.path.join(tc.asan, tool), *args], cwd=work, env={**ASAN_ENV, **(env or {})}, cpu=cpu, data=0, fsize=32 << 20, stdin=stdin, nofile=64)
    if r.rc == "wall":
        raise Infra("wall")
    txt = r.out + r.err
    if b"Sanitizer" in txt or b"runtime error:" in txt or r.rc in (98, 99):
        m = re.search(rb"(ERROR: \w+Sanitizer.*|.*runtime error:.*)", txt)
        fr = re.findall(rb"#\d+ 0x\w+ in (\w+) (\S+)", txt)
        return r, "sanitizer: %s | %s" % ((m.group(1) if m else txt[:200]).decode("latin-1")[:200], "; ".join("%s %s" % (a.decode(), b.decode("latin-1").rsplit("/", 1)[-1]) for a, b in fr[:6]))
    if isinstance(r.rc, int) and r.rc < 0:
        if -r.rc == signal.SIGXFSZ:
            return r, None
        if -r.rc in (signal.SIGXCPU, signal.SIGKILL):
            return r, "did not end within %d s of CPU time" % cpu
        return r, "killed by signal %d" % -r.rc
    return r, None


def halves(b):
    """Shrinking candidates of a byte string (line-wise, then token-wise)."""
    for split in (lambda x: x.splitlines(True), lambda x: TOK.findall(x)):
        t = split(b)
        n = len(t)
        if n > 1:
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    yield b"".join(t[:i] + t[i + size:])
                if n // size > 60:
                    break
                size //= 2
