"""H01: what the standard headers say is what the compiler and the library do."""
import hashlib, os, re, struct
from vlib import core, targets
from vlib.core import Infra, run
from checks.X01 import FLAGS, NATIVE, DOS16

ID = "H01"
NEEDS = ("smlrc", "smlrpp", "smlrl", "smlrcc", "lcl", "lcw", "lcm", "lcdp", "lcdh", "lcdu", "lcds", "dpstub")
QUICK = (500, 60)
THOROUGH = (20000, 700)
TECHNIQUE = "property-based testing: generated programs that include the headers in random order and repetition and use what they define; judged by a model of each target's types"
LEVEL_NOTE = "Every header that is not specific to a library's inside, in any order and number, with and without the full preprocessor, under each char and wchar_t option and on all eight targets; ranges, types, constants, format macros, offsetof, assert, float.h, operator spellings, and that each declared standard function links."
RULE = ("Each evaluation is one item (a type, limit, constant, format macro, offsetof, assert sequence, spelled operator or set of functions) of a program: what the program prints is what a model of the target's types prescribes. Non-trivial: the program includes at least 4 headers and the item depends on a header; distinct by item, options and target.")
ASSUMPTIONS = ["the ranges of the types are those of the language: 8-bit char, 16-bit short, 32-bit long, int of 16 bits in the tiny and small models and 32 elsewhere", "<time.h> and <stdio.h> need the macros the driver defines for the target's operating system"]
T32 = ("linux", "win", "macos", "dosp", "huge", "unreal")
DOST = ("huge", "unreal", "tiny", "small")
HDRS = ["assert", "ctype", "errno", "fcntl", "float", "inttypes", "iso646", "limits", "locale", "math", "setjmp", "signal", "stdarg", "stddef", "stdint", "stdio", "stdlib", "string", "time", "unistd", "sys/stat", "sys/types", "sys/lng"]
FN16 = {
    "ctype": "isalnum isalpha isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper",
    "fcntl": "creat open", "locale": "setlocale localeconv", "setjmp": "longjmp", "signal": "signal raise",
    "stdio": "fopen freopen fflush fclose remove rename fread fgetc getc getchar fgets gets ungetc fwrite fputc putc putchar fputs puts perror rewind fgetpos fsetpos clearerr ferror feof setvbuf setbuf fileno tmpnam tmpfile vfprintf fprintf vprintf printf vsprintf sprintf vsnprintf snprintf vfscanf fscanf vscanf scanf vsscanf sscanf",
    "stdlib": "abort exit atexit malloc calloc free realloc abs div atoi rand srand bsearch qsort getenv system",
    "string": "memset memcpy memmove memchr memcmp strcpy strncpy strxfrm strcat strncat strlen strchr strrchr strstr strspn strcspn strpbrk strtok strcmp strncmp strcoll strerror",
    "unistd": "close read write unlink isatty"}
FN32 = {
    "math": "frexp ldexp modf fabs ceil floor round trunc sqrt hypot exp exp2 expm1 pow log log2 log10 sin cos tan atan2 atan acos asin fmod cosh sinh tanh frexpf ldexpf modff fabsf ceilf floorf roundf truncf sqrtf hypotf expf exp2f expm1f powf logf log2f log10f sinf cosf tanf atan2f atanf acosf asinf fmodf coshf sinhf tanhf",
    "stdio": "ftell fseek", "stdlib": "labs ldiv atol strtol strtoul strtof strtod atof",
    "time": "clock time gmtime localtime mktime ctime difftime asctime strftime", "unistd": "lseek"}
GROUPS = [("errno", ["EDOM", "ERANGE"]), ("stdio", ["SEEK_SET", "SEEK_CUR", "SEEK_END"]), ("unistd", ["SEEK_SET", "SEEK_CUR", "SEEK_END"]), ("stdio", ["_IOFBF", "_IOLBF", "_IONBF"]),
          ("signal", ["SIGINT", "SIGILL", "SIGABRT", "SIGFPE", "SIGSEGV", "SIGTERM"]), ("locale", ["LC_ALL", "LC_COLLATE", "LC_CTYPE", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"]),
          ("fcntl", ["O_RDONLY", "O_WRONLY", "O_RDWR", "O_CREAT", "O_EXCL", "O_TRUNC", "O_APPEND"]), ("fcntl", ["S_IRUSR", "S_IWUSR", "S_IXUSR", "S_IRGRP", "S_IWGRP", "S_IXGRP", "S_IROTH", "S_IWOTH", "S_IXOTH"]),
          ("sys/stat", ["S_IRUSR", "S_IWUSR", "S_IXUSR", "S_IRGRP", "S_IWGRP", "S_IXGRP", "S_IROTH", "S_IWOTH", "S_IXOTH"]), ("unistd", ["STDIN_FILENO", "STDOUT_FILENO", "STDERR_FILENO"])]
ATLEAST = [("stdio", "BUFSIZ", 256), ("stdio", "FOPEN_MAX", 8), ("stdio", "TMP_MAX", 25), ("stdio", "FILENAME_MAX", 13), ("stdio", "L_tmpnam", 13), ("stdlib", "RAND_MAX", 32767), ("limits", "CHAR_BIT", 8), ("time", "CLOCKS_PER_SEC", 1)]
EQUAL = [("stdlib", "EXIT_SUCCESS", 0), ("stddef", "NULL == 0", 1), ("stdio", "NULL == 0", 1), ("stdlib", "NULL == 0", 1), ("string", "NULL == 0", 1), ("time", "NULL == 0", 1), ("locale", "NULL == 0", 1), ("unistd", "NULL == 0", 1), ("stdio", "EOF < 0", 1),
         ("stdlib", "EXIT_FAILURE != 0", 1), ("limits", "CHAR_BIT", 8), ("float", "FLT_RADIX", 2), ("float", "FLT_MANT_DIG", 24), ("float", "FLT_DIG", 6), ("float", "FLT_MIN_EXP", -125), ("float", "FLT_MIN_10_EXP", -37), ("float", "FLT_MAX_EXP", 128), ("float", "FLT_MAX_10_EXP", 38),
         ("float", "DBL_MANT_DIG", 24), ("float", "DBL_DIG", 6), ("float", "DBL_MAX_EXP", 128), ("float", "DBL_MIN_EXP", -125), ("float", "LDBL_MANT_DIG", 24), ("float", "DECIMAL_DIG >= 9", 1)]
FLT = [("FLT_EPSILON", 2.0 ** -23), ("FLT_MIN", 2.0 ** -126), ("FLT_MAX", (2 - 2.0 ** -23) * 2.0 ** 127), ("DBL_EPSILON", 2.0 ** -23), ("DBL_MIN", 2.0 ** -126), ("DBL_MAX", (2 - 2.0 ** -23) * 2.0 ** 127), ("LDBL_EPSILON", 2.0 ** -23), ("LDBL_MAX", (2 - 2.0 ** -23) * 2.0 ** 127)]
OPS = {"and": "&&", "or": "||", "bitand": "&", "bitor": "|", "xor": "^", "not_eq": "!=", "not": "!", "compl": "~"}


def setup(tc):
    targets.oshost(tc)


def b16(t):
    return t in DOS16


def wch(data):
    """(bytes, signed) of wchar_t"""
    t = data["t"]
    s, z = data["ws"], data["wz"]
    unixy = t in ("linux", "macos")
    return (2 if z == "short" or (z is None and not unixy) else 4), (s == "s" or (s is None and unixy))


def types(data):
    """name -> (header list, bytes, signed)"""
    w = 2 if b16(data["t"]) else 4
    r = {}
    for n in (8, 16) + ((32,) if w == 4 else ()):
        for f in ("", "_least", "_fast"):
            for h in (["stdint"], ["inttypes"]):
                r["int%s%d_t" % (f, n), h[0]] = (n // 8, True)
                r["uint%s%d_t" % (f, n), h[0]] = (n // 8, False)
    for n, hs, s in (("intptr_t", ("stdint", "unistd"), 1), ("uintptr_t", ("stdint",), 0), ("size_t", ("stddef", "stdio", "stdlib", "string", "time", "unistd", "sys/types"), 0), ("ptrdiff_t", ("stddef",), 1), ("ssize_t", ("unistd", "sys/types"), 1),
                     ("intmax_t", ("stdint", "inttypes"), 1), ("uintmax_t", ("stdint", "inttypes"), 0), ("mode_t", ("sys/types", "sys/stat", "fcntl"), None), ("pid_t", ("sys/types",), 1), ("sig_atomic_t", ("signal",), None)):
        for h in hs:
            r[n, h] = (w, s)
    if w == 4:
        for h in ("sys/types", "unistd", "fcntl", "sys/stat"):
            r["off_t", h] = (4, True)
        for h in ("time", "sys/types"):
            r["time_t", h] = (4, None)
        r["clock_t", "time"] = (4, None)
    z, s = wch(data)
    for h in ("stddef", "stdlib"):
        r["wchar_t", h] = (z, s)
    return r


def limits(data):
    """name -> (header, value, type of the expression as (bytes, signed))"""
    w = 2 if b16(data["t"]) else 4
    r = {}
    uc = data["c"] == "u"
    it, ut = (w, True), (w, False)

    def prom(z, s):
        return it if z < w or s else ut

    def both(lo, hi, h, z, s):
        b = 8 * z
        if s:
            r[lo, h] = (-(1 << b - 1), prom(z, s))
            r[hi, h] = ((1 << b - 1) - 1, prom(z, s))
        else:
            if lo:
                r[lo, h] = (0, prom(z, s))
            r[hi, h] = ((1 << b) - 1, prom(z, s))
    both("SCHAR_MIN", "SCHAR_MAX", "limits", 1, True)
    both(None, "UCHAR_MAX", "limits", 1, False)
    both("CHAR_MIN", "CHAR_MAX", "limits", 1, not uc)
    both("SHRT_MIN", "SHRT_MAX", "limits", 2, True)
    both(None, "USHRT_MAX", "limits", 2, False)
    both("INT_MIN", "INT_MAX", "limits", w, True)
    both(None, "UINT_MAX", "limits", w, False)
    if w == 4:
        both("LONG_MIN", "LONG_MAX", "limits", 4, True)
        both(None, "ULONG_MAX", "limits", 4, False)
    for n in (8, 16) + ((32,) if w == 4 else ()):
        for f in ("", "_LEAST", "_FAST"):
            both("INT%s%d_MIN" % (f, n), "INT%s%d_MAX" % (f, n), "stdint", n // 8, True)
            both(None, "UINT%s%d_MAX" % (f, n), "stdint", n // 8, False)
    for f in ("INTPTR", "PTRDIFF", "INTMAX"):
        both(f + "_MIN", f + "_MAX", "stdint", w, True)
    for f in ("UINTPTR_MAX", "SIZE_MAX", "UINTMAX_MAX"):
        both(None, f, "stdint", w, False)
    z, s = wch(data)
    both("WCHAR_MIN", "WCHAR_MAX", "stdint", z, s)
    if not s:
        del r["WCHAR_MIN", "stdint"]
        r["WCHAR_MIN", "stdint"] = (0, None)
    return r


def gen_item(rng, data):
    t = data["t"]
    w = 2 if b16(t) else 4
    pp = not data["nopp"]
    kinds = ["typ"] * 3 + ["lim"] * 4 + ["pri"] * 3 + ["scn"] * 3 + ["grp", "least", "eq", "fn", "fn", "lconv", "wstr", "iso", "iso"]
    if pp:
        kinds += ["lim"] * 3 + ["intc"] * 2 + ["off"] * 3 + ["assert"] * 3 + ["va"]
    if w == 4:
        kinds += ["flt"]
    k = rng.choice(kinds)
    if k == "typ":
        n = rng.choice(sorted(types(data)))
        return {"k": k, "n": list(n), "v": rng.choice([0, 1, -1, 127, 128, 255, 32767, -32768, rng.getrandbits(8 * w) - (1 << 8 * w - 1)])}
    if k == "lim":
        return {"k": k, "n": list(rng.choice(sorted(limits(data)))), "if": rng.random() < 0.4}
    if k == "intc":
        n = rng.choice([8, 16, "MAX"] + ([32] if w == 4 else []))
        u = rng.random() < 0.5
        b = 8 * w if n == "MAX" else n
        return {"k": k, "n": n, "u": u, "v": rng.choice([0, 1, (1 << b - (not u)) - 1, rng.getrandbits(b - (not u))]), "h": rng.choice(["stdint", "inttypes"])}
    if k in ("pri", "scn"):
        n = rng.choice(["8", "16", "MAX", "PTR"] + (["32"] if w == 4 else []))
        f = rng.choice(["", "LEAST", "FAST"]) if n.isdigit() else ""
        b = 8 * w if not n.isdigit() else int(n)
        c = rng.choice("dioux" + ("X" if k == "pri" else ""))
        v = rng.choice([0, 1, (1 << b) - 1, (1 << b - 1), (1 << b - 1) - 1, rng.getrandbits(b), rng.getrandbits(b)])
        if c in "di" and v >> b - 1:
            v -= 1 << b
        return {"k": k, "n": f + n, "b": b, "c": c, "v": v, "fill": rng.getrandbits(b), "i": rng.randrange(3)}
    if k == "grp":
        return {"k": k, "g": rng.randrange(len(GROUPS))}
    if k == "least":
        return {"k": k, "g": rng.randrange(len(ATLEAST) - (w == 2))}
    if k == "eq":
        return {"k": k, "g": rng.randrange(len(EQUAL))}
    if k == "fn":
        L = [(h, f) for h, fs in FN16.items() for f in fs.split()] + ([(h, f) for h, fs in FN32.items() for f in fs.split()] if w == 4 else [("time", "asctime"), ("time", "strftime")])
        return {"k": k, "f": rng.sample(L, rng.choice([1, 2, 5]))}
    if k == "iso":
        def e(d):
            if d == 0 or rng.random() < 0.2:
                return str(rng.randrange(100)) if rng.random() < 0.5 else "ab"[rng.randrange(2)]
            if rng.random() < 0.25:
                return [rng.choice(["not", "compl"]), e(d - 1)]
            return [rng.choice(["and", "or", "bitand", "bitor", "xor", "not_eq"]), e(d - 1), e(d - 1)]
        return {"k": k, "e": e(rng.choice([1, 2, 3])), "a": rng.randrange(-100, 100), "b": rng.randrange(0, 100), "as": rng.choice(["and_eq", "or_eq", "xor_eq"])}
    if k == "flt":
        return {"k": k, "g": rng.randrange(len(FLT))}
    if k == "off":
        m = []
        for _ in range(rng.randrange(1, 7)):
            m.append([rng.choice(["char", "short", "int", "char*", "unsigned char"] + (["long", "float"] if w == 4 else [])), rng.choice([0, 0, 1, 2, 3, 5])])
        return {"k": k, "m": m, "td": rng.random() < 0.5, "h": "stddef"}
    if k == "assert":
        return {"k": k, "s": [[rng.random() < 0.4, rng.randrange(1, 4), rng.random() < 0.5] for _ in range(rng.randrange(1, 6))], "fail": rng.random() < 0.2}
    if k == "wstr":
        z, s = wch(data)
        return {"k": k, "s": [rng.randrange(32, 127) for _ in range(rng.randrange(0, 6))], "h": rng.choice(["stddef", "stdlib"])}
    if k == "va":
        return {"k": k, "a": [rng.randrange(-30000, 30000) for _ in range(rng.randrange(0, 6))], "f": rng.randrange(3)}
    return {"k": k}


def gen(rng, idx, tier):
    if idx % 10 == 9:
        t = rng.choice(DOST)
    else:
        t = ("linux", "win", "macos", "dosp")[idx % 4]
    data = {"t": t, "c": rng.choice([None, "s", "u"]), "ws": rng.choice([None, "s", "u"]), "wz": rng.choice([None, "short", "long"] if t not in DOS16 else [None, "short"]), "nopp": rng.random() < 0.25, "pre": rng.random() < 0.2}
    data["inc"] = [rng.choice(HDRS) for _ in range(rng.choice([2, 4, 8, 16, 40]))]
    n = rng.choice([3, 10, 20]) if not b16(t) else rng.choice([3, 10])
    data["items"] = [dict(gen_item(rng, data), x=[rng.choice(HDRS) for _ in range(rng.choice([0, 0, 1, 3]))]) for _ in range(n)]
    data["base"] = rng.choice([None, 0x10000000, 0x00a00000]) if t == "win" else None
    for i, it in enumerate(data["items"]):       # only the last program step may end it
        if it["k"] == "assert" and it.get("fail") and i != len(data["items"]) - 1:
            it["fail"] = False
    return data


class W:
    """Text of one item and what it must print."""

    def __init__(self, data, i):
        self.w = 2 if b16(data["t"]) else 4
        self.i, self.pre, self.body, self.exp, self.inc = i, [], [], [], []

    def d(self, e, v):
        m = (1 << 8 * self.w) - 1
        self.body.append("outd(%s);" % e)
        v &= m
        self.exp.append(str(v - m - 1 if v > m >> 1 else v))

    def u(self, e, v):
        self.body.append("outu(%s);" % e)
        self.exp.append("u%d" % (v & (1 << 8 * self.w) - 1))

    def s(self, e, v):
        self.body.append("outs(%s);" % e)
        self.exp.append("[%s]" % v)


def lit(v, w, u=False):
    if v < 0:
        return "(-%d - 1)" % (-v - 1)
    return "%d%s" % (v, "u" if v >= 1 << 8 * w - 1 or u else "")


def ev(e, a, b, w):
    m = lambda v: (v + (1 << 8 * w - 1) & (1 << 8 * w) - 1) - (1 << 8 * w - 1)
    if isinstance(e, str):
        return a if e == "a" else b if e == "b" else int(e)
    x = ev(e[1], a, b, w)
    if e[0] == "not":
        return int(not x)
    if e[0] == "compl":
        return m(~x)
    y = ev(e[2], a, b, w)
    return {"and": lambda: int(bool(x and y)), "or": lambda: int(bool(x or y)), "bitand": lambda: x & y, "bitor": lambda: x | y, "xor": lambda: x ^ y, "not_eq": lambda: int(x != y)}[e[0]]()


def etext(e):
    if isinstance(e, str):
        return e
    return "(%s %s)" % (e[0], etext(e[1])) if len(e) == 2 else "(%s %s %s)" % (etext(e[1]), e[0], etext(e[2]))


def emit(data, it, i):
    o = W(data, i)
    w = o.w
    k = it["k"]
    I = "%d" % i
    if k == "typ":
        n, h = it["n"]
        z, s = types(data)[n, h]
        o.inc = [h]
        o.u("sizeof(%s)" % n, z)
        if s is not None:
            o.d("(%s)-1 < 0" % n, s)
            v = it["v"] & (1 << 8 * z) - 1
            if s and v >> 8 * z - 1:
                v -= 1 << 8 * z
            o.body.append("{ %s v = %s;" % (n, lit(it["v"], w)))
            (o.d if s or z < w else o.u)("v", v)
            o.body.append("v++;")
            v = v + 1 & (1 << 8 * z) - 1
            if s and v >> 8 * z - 1:
                v -= 1 << 8 * z
            (o.d if s or z < w else o.u)("v", v)
            o.body.append("}")
    elif k == "lim":
        n, h = it["n"]
        v, t = limits(data)[n, h]
        o.inc = [h]
        o.u(n, v)
        o.u("sizeof(%s)" % n, w)
        if t is not None:
            o.d("%s - %s - 1 < 0" % (n, n), t[1])
        if it["if"] and not data["nopp"]:
            L = "(-%d - 1)" % (-v - 1) if v < 0 else "%d%s" % (v, "" if t and t[1] else "U")
            o.body.append("#if %s == %s\nouts(\"eq\");\n#else\nouts(\"ne\");\n#endif" % (n, L))
            o.exp.append("[eq]")
            if v < 0:
                o.body.append("#if %s < 0 && %s + 1 < 0 || %s < -%d\nouts(\"neg\");\n#else\nouts(\"pos\");\n#endif" % (n, n, n, -v))
                o.exp.append("[neg]")
            elif v:
                o.body.append("#if %s > 0 && %s\nouts(\"pos\");\n#else\nouts(\"neg\");\n#endif" % (n, n))
                o.exp.append("[pos]")
    elif k == "intc":
        n = it["n"]
        o.inc = [it["h"]]
        e = "%sINT%s_C(%d)" % ("U" if it["u"] else "", n, it["v"])
        b = 8 * w if n == "MAX" else n
        o.u(e, it["v"])
        o.u("sizeof(%s)" % e, w)
        o.d("%s - %s - 1 < 0" % (e, e), not it["u"] or b < 8 * w)
    elif k in ("pri", "scn"):
        c, b, v = it["c"], it["b"], it["v"]
        ty = {"MAX": "intmax_t", "PTR": "intptr_t"}.get(it["n"]) or "int%s_t" % it["n"].replace("LEAST", "_least").replace("FAST", "_fast")
        if c not in "di":
            ty = "u" + ty
        o.inc = ["inttypes", "stdio"]
        f = {"d": "%d", "i": "%d", "o": "%o", "u": "%d", "x": "%x", "X": "%X"}[c]
        if k == "pri":
            o.body.append("{ char s[40]; %s v = %s; sprintf(s, \"<%%\" PRI%s%s \">%%s\", v, \"x\");" % (ty, lit(v, w), c, it["n"]))
            o.s("s", "<" + f % v + ">x")
            o.body.append("}")
        else:
            o.body.append("{ %s v[3]; v[0] = %s; v[1] = v[0]; v[2] = v[0];" % (ty, lit(it["fill"], w)))
            t = f % v if c != "i" or v < 0 else ("%d", "0x%x", "0%o")[it["i"]] % v
            o.d("sscanf(\"%s;\", \"%%\" SCN%s%s, v + 1)" % (t, c, it["n"]), 1)
            sg = c in "di"
            fl = it["fill"]
            if sg and fl >> b - 1:
                fl -= 1 << b
            for j in range(3):
                (o.d if sg or b < 8 * w else o.u)("v[%d]" % j, (fl, v, fl)[j])
            o.body.append("}")
    elif k == "grp":
        h, g = GROUPS[it["g"]]
        o.inc = [h]
        for a in range(len(g)):
            o.d(" + ".join("(%s == %s)" % (g[a], x) for x in g), 1)
        if h in ("errno", "signal"):
            o.d(" && ".join("%s > 0" % x for x in g), 1)
        if g[0] == "O_RDONLY":
            o.d("(O_CREAT & O_EXCL) | (O_CREAT & O_TRUNC) | (O_CREAT & O_APPEND) | (O_EXCL & O_TRUNC) | (O_EXCL & O_APPEND) | (O_TRUNC & O_APPEND) | ((O_CREAT | O_EXCL | O_TRUNC | O_APPEND) & (O_RDONLY | O_WRONLY | O_RDWR))", 0)
    elif k == "least":
        h, n, v = ATLEAST[it["g"]]
        o.inc = [h]
        o.d("%s >= %d" % (n, v), 1)
    elif k == "eq":
        h, n, v = EQUAL[it["g"]]
        o.inc = [h]
        o.d(n, v)
    elif k == "fn":
        o.inc = sorted({h for h, f in it["f"]})
        o.pre.append("void (*fp%s[])(void) = { %s };" % (I, ", ".join("(void(*)(void))%s" % f for h, f in it["f"])))
        o.d(" + ".join("(fp%s[%d] != 0)" % (I, j) for j in range(len(it["f"]))), len(it["f"]))
    elif k == "iso":
        o.inc = ["iso646"]
        o.body.append("{ int a = %d, b = %d;" % (it["a"], it["b"]))
        r = ev(it["e"], it["a"], it["b"], w)
        o.d(etext(it["e"]), r)
        o.body.append("a %s b;" % it["as"])
        o.d("a", {"and_eq": it["a"] & it["b"], "or_eq": it["a"] | it["b"], "xor_eq": it["a"] ^ it["b"]}[it["as"]])
        o.body.append("}")
    elif k == "flt":
        n, v = FLT[it["g"]]
        o.inc = ["float"]
        o.body.append("{ float f = %s;" % n)
        o.u("*(unsigned*)&f", struct.unpack("<I", struct.pack("<f", v))[0])
        o.d("sizeof(%s)" % n, 4)
        o.body.append("}")
    elif k == "off":
        o.inc = ["stddef"]
        pos, al = 0, 1
        ms = []
        tag = "st%s" % I if it["td"] else "struct s%s" % I
        offs = []
        for j, (ty, n) in enumerate(it["m"]):
            z = {"char": 1, "unsigned char": 1, "short": 2}.get(ty, w)
            pos = (pos + z - 1) // z * z
            al = max(al, z)
            offs.append((j, n, z, pos))
            ms.append("%s m%d%s;" % (ty, j, "[%d]" % n if n else ""))
            pos += z * (n or 1)
        o.pre.append("typedef struct { %s } st%s;" % (" ".join(ms), I) if it["td"] else "struct s%s { %s };" % (I, " ".join(ms)))
        for j, n, z, p in offs:
            o.u("offsetof(%s, m%d)" % (tag, j), p)
            if n > 1:
                o.u("offsetof(%s, m%d[%d])" % (tag, j, n - 1), p + z * (n - 1))
        o.u("sizeof(%s)" % tag, (pos + al - 1) // al * al)
        o.body.append("{ char z[offsetof(%s, m%d) + 1];" % (tag, offs[-1][0]))
        o.u("sizeof z", offs[-1][3] + 1)
        o.body.append("}")
    elif k == "assert":
        o.inc = []
        n = 0
        o.pre.append("int n%s;" % I)
        for j, (nd, inc, isexpr) in enumerate(it["s"]):
            o.pre.append(("#undef NDEBUG\n#define NDEBUG\n" if nd else "#undef NDEBUG\n") + "#include <assert.h>")
            e = "n%s += %d" % (I, inc)
            o.pre.append("void as%s_%d(void) { %s }" % (I, j, "n%s ? assert(%s) : assert(%s);" % (I, e, e) if isexpr else "if (1) assert(%s); else assert(0);" % e))
            o.body.append("as%s_%d();" % (I, j))
            n += 0 if nd else inc
            o.d("n%s" % I, n)
        if it["fail"]:
            o.pre.append("#undef NDEBUG\n#include <assert.h>\nvoid af%s(int x)\n{\n#line %d\n  assert(x < 3);\n}" % (I, 1000 + i))
            o.body.append("outf(); af%s(2); outs(\"on\"); outf(); af%s(3); outs(\"not reached\");" % (I, I))
            o.exp.append("[on]")
        o.pre.append("#undef NDEBUG")
    elif k == "lconv":
        o.inc = ["locale", "limits"]
        o.body.append("{ struct lconv* l; setlocale(LC_ALL, \"C\"); l = localeconv();")
        o.s("l->decimal_point", ".")
        for m in ("thousands_sep", "grouping", "mon_decimal_point", "mon_thousands_sep", "mon_grouping", "positive_sign", "negative_sign", "currency_symbol", "int_curr_symbol"):
            o.s("l->" + m, "")
        if data["c"] != "u":
            for m in ("frac_digits", "p_cs_precedes", "n_sign_posn", "int_frac_digits", "int_n_sign_posn", "p_sep_by_space"):
                o.d("l->%s == CHAR_MAX" % m, 1)
        o.body.append("}")
    elif k == "wstr":
        z, s = wch(data)
        t = "".join(chr(c) if chr(c) not in "\\\"?'" else "\\" + chr(c) for c in it["s"])
        o.inc = [it["h"]]
        o.body.append("{ static wchar_t s[] = L\"%s\"; wchar_t* p = L\"%s\";" % (t, t))
        o.u("sizeof s", z * (len(it["s"]) + 1))
        o.u("sizeof s[0]", z)
        for j, c in enumerate(it["s"] + [0]):
            o.d("s[%d] == %d && p[%d] == %d" % (j, c, j, c), 1)
        if it["s"]:
            o.d("L'%s'" % (t[:2] if t[0] == "\\" else t[0]), it["s"][0])
        o.body.append("}")
    elif k == "va":
        o.inc = ["stdarg"]
        f = it["f"]
        st = ["va_start(ap, n);", "if (n) va_start(ap, n); else va_start(ap, n);", "n ? va_start(ap, n) : va_start(ap, n);"][f]
        en = ["va_end(ap);", "if (n) va_end(ap); else va_end(ap);", "n ? va_end(ap) : va_end(ap);"][f]
        o.pre.append("void va%s(int n, ...) { int i; va_list ap; %s for (i = 0; i < n; i++) outd(va_arg(ap, int)); %s }" % (I, st, en))
        o.body.append("va%s(%s);" % (I, ", ".join(map(str, [len(it["a"])] + it["a"]))))
        o.exp += [str(v) for v in it["a"]]
    return o


OUT = """#include <stdio.h>
void outd(int v) { printf("%d\\n", v); }
void outu(unsigned v) { printf("u%u\\n", v); }
void outs(char* s) { printf("[%s]\\n", s); }
void outf(void) { fflush(stdout); }
"""


def program(data):
    L = ["void outd(int); void outu(unsigned); void outs(char*); void outf(void);"]
    L += ["#include <%s.h>" % h for h in data["inc"]]
    exp = []
    bs = []
    for i, it in enumerate(data["items"]):
        o = emit(data, it, i)
        L += ["#include <%s.h>" % h for h in it["x"][:len(it["x"]) // 2] + o.inc + it["x"][len(it["x"]) // 2:]]
        L += o.pre + ["void f%d(void) {" % i] + o.body + ["}"]
        exp.append(o.exp)
    L.append("int main(void) { outf(); %s outf(); return 0; }" % " ".join("outs(\"@%d\"); f%d();" % (i, i) for i in range(len(data["items"]))))
    return "\n".join(L) + "\n", exp


def check(tc, data, work):
    t = data["t"]
    src, exp = program(data)
    for n, s in (("pa.c", src), ("out.c", OUT)):
        with open(os.path.join(work, n), "w") as f:
            f.write(s)
    exe = "P.COM" if t == "tiny" else "P.EXE"
    fl = []
    for v, m in ((data["c"], {"s": "-signed-char", "u": "-unsigned-char"}), (data["ws"], {"s": "-signed-wchar", "u": "-unsigned-wchar"}), (data["wz"], {"short": "-short-wchar", "long": "-long-wchar"})):
        if v:
            if data.get("pre"):        # overridden by the one that follows
                fl[:0] = [m[k] for k in m if k != v and (k != "long" or t not in DOS16)]
            fl.append(m[v])
    if data["nopp"]:
        fl.append("-nopp")
    st = {"evaluations": len(data["items"]), "by_target": {t: 1}, "kinds": {}}
    h = hashlib.md5(repr((t, fl)).encode()).hexdigest()[:4]
    inc = set(data["inc"]) | {x for it in data["items"] for x in it["x"]}
    if len(inc) >= 4:
        st["nontrivial_keys"] = [h + hashlib.md5(repr(sorted((k, v) for k, v in it.items() if k != "x")).encode()).hexdigest()[:10] for it in data["items"]]
    for it in data["items"]:
        st["kinds"][it["k"]] = st["kinds"].get(it["k"], 0) + 1
    try:
        targets._do("smlrcc", [tc.tool("smlrcc"), *FLAGS[t], *fl, "pa.c", "out.c", "-o", exe], work, tc.env(), cpu=60)
    except targets.Step as s:
        if b"too long" in s.r.out or b"too many" in s.r.out.lower() or b"exhausted" in s.r.out:
            return None, {"too_big": 1}
        return {"msg": "%s %s: rejected: %s\n%s" % (t, fl, str(s)[:1500], src[:3000])}, st
    os.chmod(os.path.join(work, exe), 0o755)
    fail = bool(data["items"]) and data["items"][-1]["k"] == "assert" and data["items"][-1].get("fail") and not data["nopp"]
    rc = 1 if fail else 0
    err = None
    if t in NATIVE:
        if t == "linux":
            r = run(["./" + exe], cwd=work, cpu=10)
        else:
            r = targets.run_hosted(tc, exe, work, [], cpu=10, base=data.get("base"), env={"PATH": "/bin"})
        if r.rc == "wall":
            raise Infra("wall")
        out, got, err = r.out, r.rc, r.err
    else:
        with open(os.path.join(work, "RUN.BAT"), "w", newline="\r\n") as f:
            f.write("@echo off\n%s > OUT\nif errorlevel 1 echo GE> GE\necho DONE> ALL.OK\nexit\n" % exe)
        ok = targets.dosbox(work)
        out = open(os.path.join(work, "OUT"), "rb").read() if os.path.exists(os.path.join(work, "OUT")) else b""
        ge = os.path.join(work, "GE")
        got = "hung" if not ok else 1 if os.path.exists(ge) and os.path.getsize(ge) else 0
    out = out.replace(b"\r\n", b"\n").decode("latin-1")
    parts = {}
    for p in re.split(r"(?m)^\[@(?=\d+\]$)", out)[1:]:
        n, _, rest = p.partition("]\n")
        parts[int(n)] = rest.split("\n")[:-1]
    for i, e in enumerate(exp):
        if parts.get(i) != e:
            o = emit(data, data["items"][i], i)
            return {"msg": "%s %s: expected %s, got %s (ends with %s %s)\nin %s\n%s\n%s" % (t, fl, e, parts.get(i), got, (err or b"")[:200], data["items"][i], "\n".join(o.pre), "\n".join(o.body)), "items": [i]}, st
    if got != rc:
        return {"msg": "%s %s: exit status %s instead of %s %s\n%s" % (t, fl, got, rc, (err or b"")[:200], src[-1500:])}, st
    if fail and err is not None:
        i = len(data["items"]) - 1
        want = [b"x < 3", b"af%d" % i, b"pa.c", b"%d" % (1000 + i)]
        m = [x for x in want if x not in err]
        if m:
            return {"msg": "%s %s: the message of a failed assert lacks %s: %r" % (t, fl, m, err[:300])}, st
    return None, st


def candidates(data):
    it = data["items"]
    k = len(it)
    while k >= 1:
        for i in range(0, len(it), k):
            r = it[:i] + it[i + k:]
            if r != it:
                yield {**data, "items": r}
        k //= 2
    inc = data["inc"]
    k = len(inc)
    while k >= 1:
        for i in range(0, len(inc), k):
            yield {**data, "inc": inc[:i] + inc[i + k:]}
        k //= 2
    for i, x in enumerate(it):
        if x["x"]:
            yield {**data, "items": it[:i] + [{**x, "x": []}] + it[i + 1:]}
        for f in ("s", "f", "m"):
            if isinstance(x.get(f), list) and len(x[f]) > 1:
                for j in range(len(x[f])):
                    yield {**data, "items": it[:i] + [{**x, f: x[f][:j] + x[f][j + 1:]}] + it[i + 1:]}
    for f in ("c", "ws", "wz"):
        if data[f]:
            yield {**data, f: None}
    if data["nopp"] and all(x["k"] not in ("intc", "off", "assert", "va") for x in it):
        yield {**data, "nopp": False}


def sample(data):
    return {"target": data["t"], "includes": data["inc"][:10], "items": [{k: v for k, v in it.items() if k != "x"} for it in data["items"][:6]]}
