"""C12: literals have exactly the value, type and bytes their spelling denotes."""
import os
from vlib import exprcheck, targets
from vlib.core import run, Infra

ID = "C12"
NEEDS = ("smlrc", "smlrl", "smlrcmips", "smlrpp", "smlrcc")
QUICK = (1000, 30)
THOROUGH = (60000, 600)
TECHNIQUE = "property-based testing: generated literal spellings, specification evaluator as oracle"
LEVEL_NOTE = ("Integer literals (all bases, suffixes, edges), character constants and strings (all escapes, wide, multi-character, concatenation, signedness options) run on five targets, "
              "the #if evaluator of the preprocessor, and malformed or out-of-range literals that have to be diagnosed.")
RULE = ("Each evaluation is one literal used in a compiled program (value, size, signedness, bytes compared with the evaluator), in an #if condition, or a malformed literal whose diagnosis is checked. "
        "Non-trivial: not a plain decimal below 256 or a plain letter; distinct by spelling, context and target.")
ASSUMPTIONS = ["multi-character constants have the first character most significant (as the other compilers of these targets)",
               "wide literals take ASCII source characters and hexadecimal escapes of the wide type's width"]

TG = ["linux"] * 10 + ["mips"] * 3 + ["tiny", "small", "huge", "unreal"]


def setup(tc):
    targets.setup(tc, "linux", "tiny", "mips", "huge", "unreal")


# ---- integers

SUF = ["", "", "", "u", "U", "l", "L", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU"]


def gen_int(rng, bits, anyl=True):
    r = rng.random()
    if r < 0.55:
        k = rng.randrange(bits + 2)
        v = max(0, (1 << k) + rng.choice([-2, -1, 0, 1, 2]) * rng.choice([1, 1, 1, 3]))
    elif r < 0.65:
        v = rng.choice([10 ** k for k in range(11)]) + rng.choice([-1, 0, 1])
    else:
        v = rng.getrandbits(rng.randrange(1, bits + 3))
    base = rng.choice("dddhho")
    z = rng.choice([0, 0, 0, 1, 2, 20, rng.randrange(700)]) if rng.random() < 0.25 else 0
    if base == "d":
        s = str(v)
        if v == 0:
            s = "0" * (1 + z)
    elif base == "o":
        s = "0" + "0" * z + "%o" % v
    else:
        h = "".join(rng.choice([c, c.upper()]) for c in "%x" % v)
        s = rng.choice(["0x", "0X"]) + "0" * z + h
    return s + rng.choice(SUF if anyl else ["", "", "u", "U"])


def int_value(s, bits):
    """-> (value, unsigned) or None when C (and this compiler) has no type for it."""
    body = s.rstrip("uUlL")
    suf = s[len(body):].lower()
    if body[:2].lower() == "0x":
        v, dec = int(body[2:], 16), False
    elif body[0] == "0":
        v, dec = int(body, 8), False
    else:
        v, dec = int(body), True
    if v >> bits:
        return None
    if "u" in suf:
        return v, True
    if v >> (bits - 1):
        return None if dec else (v, True)
    return v, False


# ---- characters: a "piece" is (spelling, code)

SIMPLE = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, "'": 39, '"': 34, "?": 63}
PLAIN = "".join(chr(c) for c in range(32, 127) if chr(c) not in "\\'\"?")


def piece(rng, wide, pp=False):
    """wide: 0 or the size of wchar_t"""
    r = rng.random()
    if r < 0.4:
        c = rng.choice(PLAIN)
        return c, ord(c)
    if r < 0.45 and not wide and not pp:
        c = rng.randrange(128, 256)
        return chr(c), c
    if r < 0.6:
        c = rng.choice(sorted(SIMPLE))
        return "\\" + c, SIMPLE[c]
    if r < 0.8:
        v = rng.choice([0, 7, 8, 63, 64, 127, 128, 255, rng.randrange(256)])
        if pp:
            v &= 127
        w = rng.choice([1, 2, 3, 3])
        s = "%0*o" % (w, v)
        return "\\" + s, v
    top = {0: 8, 2: 16, 4: 32}[wide]
    v = rng.choice([0, 1, 9, 10, 127, 128, 255, rng.getrandbits(rng.randrange(1, top + 1)), (1 << top) - 1, 1 << (top - 1)])
    v &= (1 << top) - 1
    if pp:
        v &= 127
    s = "".join(rng.choice([c, c.upper()]) for c in "%x" % v)
    return "\\x" + "0" * rng.choice([0, 0, 0, 1, 2, 5, rng.randrange(40)]) + s, v


def join(ps, rng, stringy):
    """Spells pieces next to each other so that no escape swallows its neighbour. -> list of (spelling, code)"""
    out = []
    for s, v in ps:
        if out and out[-1][0][0] == "\\":
            p = out[-1][0]
            if p[1] == "x" and s[0] in "0123456789abcdefABCDEF":
                s, v = "\\n", 10
            elif p[1] in "01234567" and len(p) < 4 and s[0] in "01234567":
                s, v = "\\t", 9
        if stringy and s == "'":
            pass
        out.append((s, v))
    return out


def gen_chr(rng, isz, wsz):
    wide = rng.random() < 0.25 and wsz or 0
    n = 1 if wide or rng.random() < 0.6 else rng.randrange(1, isz + 1)
    ps = join([piece(rng, wide) for _ in range(n)], rng, False)
    return ["chr", wide, ps]


def gen_str(rng, wsz):
    wide = rng.random() < 0.3 and wsz or 0
    parts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = rng.choice([0, 1, 2, 5, 12, 40]) if rng.random() < 0.95 else rng.randrange(100, 900)
        # a digit that starts the next literal is no part of the escape that ends this one
        parts.append(join([piece(rng, wide) for _ in range(n)], rng, True))
    return ["str", wide, parts, rng.choice(["ptr", "arr", "arr", "sptr", "exact", "sizeof", "more"]), rng.choice([" ", "\n", "", "/**/"])]


def sp(ps, q):
    return "".join(s if s not in ("'", '"') or s != q else "\\" + s for s, _ in ps)


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class Opt:
    def __init__(self, d):
        self.isz = targets.TARGETS[d["target"]].isz
        self.flags = []
        self.schar = d["schar"]
        self.flags.append("-signed-char" if d["schar"] else "-unsigned-char")
        self.wsz, self.wsig = 2, False
        w = d["wide"]
        if "long" in w:
            self.flags.append("-long-wchar")
            self.wsz = 4
        if "signed" in w:
            self.flags.append("-signed-wchar")
            self.wsig = True
        if "short" in w:
            self.flags.append("-short-wchar")
            self.wsz = 2
        if "unsigned" in w:
            self.flags.append("-unsigned-wchar")
            self.wsig = False


def gen(rng, idx, tier):
    r = rng.random()
    if r < 0.25:
        return {"mode": "pp", "items": [gen_pp(rng) for _ in range(80)]}
    if r < 0.5:
        return {"mode": "bad", "items": [gen_bad(rng) for _ in range(6)]}
    t = rng.choice(TG)
    if t in ("tiny", "small") :
        w = rng.choice([[], ["signed"], ["unsigned"], ["short"]])
    else:
        w = rng.choice([[], [], ["long"], ["signed"], ["long", "signed"], ["short", "unsigned"], ["long", "unsigned"]])
    d = {"mode": "run", "target": t, "schar": rng.random() < 0.6, "wide": w, "items": []}
    o = Opt(d)
    n = rng.choice([10, 40, 80])
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            while True:
                s = gen_int(rng, o.isz * 8, o.isz == 4)
                if int_value(s, o.isz * 8):
                    break
            d["items"].append(["int", s, rng.choice(["expr", "expr", "ginit", "case", "linit", "enum", "neg", "arr"])])
        elif k < 0.75:
            d["items"].append(gen_chr(rng, o.isz, o.wsz) + [rng.choice(["expr", "ginit", "case", "linit", "enum"])])
        else:
            d["items"].append(gen_str(rng, o.wsz))
    return d


def render(o, it, k):
    """-> (file-scope text, statements, expected words)"""
    m = (1 << 8 * o.isz) - 1
    if it[0] in ("int", "chr"):
        if it[0] == "int":
            lit, ctx = it[1], it[2]
            v, uns = int_value(lit, 8 * o.isz)
            head = [o.isz, 0 if uns else 1]
        else:
            wide, ps, ctx = it[1], it[2], it[3]
            lit = ("L" if wide else "") + "'" + sp(ps, "'") + "'"
            v = 0
            for _, c in ps:
                v = v << 8 | c if len(ps) > 1 else c
            if wide:
                if o.wsig and wide == 2:
                    v = signed(v, 16)
                uns = None
                head = [wide]
            else:
                if len(ps) == 1 and o.schar:
                    v = signed(v, 8)
                v = signed(v, 8 * o.isz)
                uns = False
                head = [o.isz]
        exp = list(head)
        g, s = "", "out(sizeof %s);" % lit
        if it[0] == "int":
            s += "out(-1 < %s);" % lit
        if ctx == "ginit":
            g = "unsigned g%d = %s;\n" % (k, lit)
            s += "out(g%d);" % k
        elif ctx == "linit":
            s += "{ static unsigned z = %s; unsigned y = %s; out(z); out(y); }" % (lit, lit)
            exp += [v & m]
        elif ctx == "case":
            s += "sw%d();" % k
            g = "int id%d = %s;\nvoid sw%d(void) { switch (id%d) { case %s: out(id%d); break; default: out(7777); } }\n" % (k, lit, k, k, lit, k)
        elif ctx == "enum" and not uns and v <= m >> 1:
            g = "enum { e%d = %s, f%d };\n" % (k, lit, k)
            s += "out(e%d);" % k
            if v & m != (m >> 1):
                s += "out(f%d);" % k
                exp += [v & m]
                v += 1
            else:
                g = g.replace(", f%d" % k, "")
        elif ctx == "neg":
            s += "out(-%s); out(~%s); out(%s + zero);" % (lit, lit, lit)
            exp += [-v & m, ~v & m]
        elif ctx == "arr" and 0 < v < 2000:
            g = "char a%d[%s];\n" % (k, lit)
            s += "out(sizeof a%d);" % k
        else:
            s += "out(%s);" % lit
        return g, s, exp + [v & m]
    _, wide, parts, ctx, sep = it
    lit = sep.join(("L" if wide else "") + '"' + sp(p, '"') + '"' for p in parts)
    w = wide or 1
    codes = [c for p in parts for _, c in p] + [0]
    if ctx == "exact" and len(codes) > 1:
        codes = codes[:-1]
    n = len(codes)
    ty = ("unsigned char" if not wide else "unsigned short" if wide == 2 else "unsigned") if o.isz == 4 else ("unsigned char" if not wide else "unsigned")
    exp = []
    g = s = ""
    nn = n
    if ctx == "sizeof":
        return "", "out(sizeof(%s)); out(sizeof %s);" % (lit, lit), [n * w, n * w]
    if ctx == "ptr":
        s = "{ %s *p = %s; out(sizeof(%s)); " % (ty, lit, lit)
        exp = [n * w]
    elif ctx == "sptr":
        g = "%s *p%d = %s;\n" % (ty, k, lit)
        s = "{ %s *p = p%d; " % (ty, k)
    elif ctx in ("arr", "exact") :
        if ctx == "exact" and (o.isz != 4 or not parts):
            pass
        g = "%s a%d[%s] = %s;\nchar b%d = 0x5a;\n" % (ty, k, n if ctx == "exact" else "", lit, k)
        s = "{ %s *p = a%d; out(sizeof a%d); out(b%d); " % (ty, k, k, k)
        exp = [n * w, 0x5a]
    else:
        nn = n + 3
        codes = codes + [0, 0, 0]
        s = "{ static %s a[%d] = {%s}; %s *p = a; " % (ty, nn, lit, ty)
    s += "int i; for (i = 0; i < %d; i++) out(p[i]); }" % nn
    return g, s, exp + [c & m for c in codes]


def program(o, items):
    gs, ss, exps = [], [], []
    for k, it in enumerate(items):
        g, s, e = render(o, it, k)
        gs.append(g)
        ss.append("void f%d(void) {\nout(%s); %s }\n" % (k + 100000 if False else k, "0x%x" % (0x4000 + k), s))
        exps.append([0x4000 + k] + e)
    src = "void out(unsigned);\nint zero = 0;\n" + "".join(a + b for a, b in zip(gs, [x.replace("void f", "void t", 1) for x in ss]))
    src += "int main(void) {\n" + "".join("t%d();\n" % k for k in range(len(items))) + "return 0; }\n"
    return src, exps


def check_run(tc, data, work):
    o = Opt(data)
    src, exps = program(o, data["items"])
    st = {"evaluations": len(data["items"]), "by_target": {data["target"]: len(data["items"])}, "kinds": {}, "nontrivial_keys": []}
    for it in data["items"]:
        st["kinds"][it[0]] = st["kinds"].get(it[0], 0) + 1
        if it[0] != "int" or len(it[1]) > 3:
            st["nontrivial_keys"].append(exprcheck.hash_key(repr((data["target"], data["schar"], data["wide"], it))))
    got, err = exprcheck.run_target(tc, data["target"], src, work, o.flags)
    if got is None:
        return {"msg": err + "\n" + (src if len(data["items"]) < 3 else "")}, st
    pos = 0
    for k, e in enumerate(exps):
        have = got[pos:pos + len(e)]
        if have != e:
            g, s, _ = render(o, data["items"][k], k)
            return {"msg": "literal %d on %s %s: expected words %s, got %s\n%s%s" % (k, data["target"], o.flags, exprcheck.hexs(e), exprcheck.hexs(have), g, s), "items": [k]}, st
        pos += len(e)
    if err or len(got) != pos:
        return {"msg": err or "extra output"}, st
    return None, st


# ---- preprocessor conditions

PPSUF = ["", "", "", "", "u", "U", "l", "L", "ul", "UL", "lu", "LU", "ll", "LL", "ull", "LLU", "uLL", "llu"]


def gen_pp(rng):
    if rng.random() < 0.7:
        while True:
            s = gen_int(rng, 64, False).rstrip("uU")
            body = s
            s += rng.choice(PPSUF)
            x = int_value(s.replace("l", "").replace("L", ""), 64)
            if x:
                break
        return ["int", s]
    return ["chr", "L" if rng.random() < 0.2 else "", [piece(rng, 0, True)]]


def pp_item(it):
    if it[0] == "int":
        v, uns = int_value(it[1].replace("l", "").replace("L", ""), 64)
        return it[1], v, uns
    return it[1] + "'" + sp(it[2], "'") + "'", it[2][0][1], None


def check_pp(tc, data, work):
    lines, want = [], []
    for k, it in enumerate(data["items"]):
        lit, v, uns = pp_item(it)
        lines.append("#if %s == 0x%xU\ny%d\n#else\nn%d\n#endif" % (lit, v, k, k))
        lines.append("#if %s != %s\nn%d\n#endif" % ("0x%xU" % (v ^ 1), lit, k))
        want += ["y%d" % k, "n%d" % k]
        if uns is not None:
            lines.append("#if -1 < %s\ns%d\n#else\nu%d\n#endif" % (lit, k, k))
            want.append(("u%d" if uns else "s%d") % k)
            lines.append("#if %s\nt%d\n#endif\n#if !%s\nz%d\n#endif" % (lit, k, lit, k))
            want.append(("t%d" if v else "z%d") % k)
        for b in (63, 62, 32, 31, 8):
            lines.append("#if (%s >> %d) & 1\nb%d_%d\n#endif" % (lit, b, k, b))
            # >> of a negative signed value does not arise: spelled values are not negative
            if v >> b & 1:
                want.append("b%d_%d" % (k, b))
    p = os.path.join(work, "t.c")
    open(p, "w", encoding="latin-1").write("\n".join(lines) + "\n")
    r = run([tc.tool("smlrpp"), "-zI", "-l", p], cwd=work)
    st = {"evaluations": len(data["items"]), "by_target": {"#if": len(data["items"])}, "kinds": {"pp": len(data["items"])},
          "nontrivial_keys": [exprcheck.hash_key("pp" + repr(it)) for it in data["items"] if it[0] != "int" or len(it[1]) > 3]}
    if r.rc == "wall":
        raise Infra("wall")
    if r.rc != 0:
        return {"msg": "preprocessor rejected: %s" % r.err[-300:].decode("latin-1")}, st
    got = r.out.decode("latin-1").split()
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        k = "".join(c for c in (want[i] if i < len(want) else got[i]).split("_")[0] if c.isdigit())
        k = int(k)
        return {"msg": "#if with %s: expected %s, got %s" % (pp_item(data["items"][k])[0], want[i:i + 4], got[i:i + 4]), "items": [k]}, st
    return None, st


# ---- malformed and out-of-range literals

def gen_bad(rng):
    """[target, literal, kind, context]"""
    t = rng.choice(["linux", "linux", "tiny", "mips", "huge"])
    bits = 16 if t == "tiny" else 32
    k = rng.choice(["int", "int", "int", "suffix", "oct", "hexesc", "octesc", "empty", "long", "unterm", "whex", "wascii", "mix", "hexempty", "escempty", "unterms"])
    if k == "int":
        while True:
            s = gen_int(rng, bits + 6, bits == 32)
            if int_value(s, bits) is None:
                return [t, s, k, rng.choice(["expr", "ginit", "case", "arr"])]
    if k == "suffix":
        b = rng.choice(["1", "0x1f", "017", "100", "0"])
        return [t, b + rng.choice(["ulu", "uu", "LLU", "x", "g", "UU", "lul", "_", "k9"]), k, rng.choice(["expr", "ginit"])]
    if k == "oct":
        return [t, "0" + rng.choice(["8", "9", "18", "778", "08", "1119", "0000000009"]), k, rng.choice(["expr", "ginit"])]
    if k == "hexesc":
        v = rng.randrange(256, 1 << rng.choice([9, 12, 16, 32, 36]))
        s = "\\x" + "0" * rng.choice([0, 0, 3]) + "%x" % v
        return [t, rng.choice(["'%s'", '"%s"', '"a%s"', '"%s z"']) % s, k, "lit"]
    if k == "octesc":
        s = "\\%o" % rng.randrange(256, 512)
        return [t, rng.choice(["'%s'", '"%s"', '"a%s1"']) % s, k, "lit"]
    if k == "whex":
        v = rng.randrange(65536, 1 << rng.choice([17, 20, 32]))
        return [t, rng.choice(["L'\\x%x'", 'L"\\x%x"', 'L"q\\x%x"']) % v, k, "lit"]
    if k == "wascii":
        c = chr(rng.randrange(128, 256))
        return [t, rng.choice(["L'%s'", 'L"%s"', 'L"ab%s"']) % c, k, "lit"]
    if k == "mix":
        a, b = rng.sample(['"%s"', 'L"%s"'], 2)
        w = lambda: "".join(rng.choice("abc ") for _ in range(rng.randrange(4)))
        return [t, a % w() + rng.choice([" ", "", "\n"]) + b % w(), k, "lit"]
    if k == "empty":
        return [t, rng.choice(["''", "L''"]), k, "lit"]
    if k == "long":
        n = {16: 3, 32: 5}[bits] + rng.choice([0, 0, 1, 5])
        return [t, "'" + "".join(rng.choice("abcXYZ09") for _ in range(n)) + "'", k, "lit"]
    if k == "unterm":
        return [t, rng.choice(["'a", "'", "'ab", "L'a", "'\\'", "'\\"]), k, "lit"]
    if k == "unterms":
        return [t, rng.choice(['"', '"abc', '"a\\"', 'L"abc', '"a" "b']), k, "lit"]
    if k == "hexempty":
        return [t, rng.choice(["0x", "0X", "0xg", "0x;", "0xu"]), k, rng.choice(["expr", "ginit"])]
    return [t, rng.choice(["'\\x'", "'\\xg'", '"\\x"', '"a\\xz"', '"\\x q"']), k, "lit"]


def bad_src(it):
    t, lit, k, ctx = it
    pre = "int before(int a) { return a + 1; }\n"
    if ctx == "expr":
        return pre + "unsigned f(void) { return %s; }\n" % lit
    if ctx == "ginit":
        return pre + "unsigned g = %s;\n" % lit
    if ctx == "case":
        return pre + "int f(unsigned x) { switch (x) { case %s: return 1; } return 0; }\n" % lit
    if ctx == "arr":
        return pre + "extern char f[%s];\n" % lit
    return pre + "unsigned f(void) { return sizeof %s; }\n" % lit if k != "long" else pre + "int f(void) { return %s; }\n" % lit


def check_bad(tc, data, work):
    st = {"evaluations": len(data["items"]), "by_target": {"bad": len(data["items"])}, "kinds": {"bad": len(data["items"])},
          "nontrivial_keys": [exprcheck.hash_key("bad" + repr(it)) for it in data["items"]]}
    for i, it in enumerate(data["items"]):
        src = bad_src(it)
        p = os.path.join(work, "t.c")
        open(p, "w", encoding="latin-1").write(src)
        tool = "smlrcmips" if it[0] == "mips" else "smlrc"
        r = run([tc.tool(tool), *targets.TARGETS[it[0]].flags, p, p[:-1] + "asm"], cwd=work)
        if r.rc == "wall":
            raise Infra("wall")
        if r.rc != 1 or b'Error in "' not in r.out + r.err or b"(2:" not in r.out + r.err and b"(3:" not in r.out + r.err:
            return {"msg": "malformed literal %s on %s: exit status %s, messages %r\n%s" % (it[1], it[0], r.rc, (r.out + r.err)[-200:], src), "items": [i]}, st
    return None, st


def check(tc, data, work):
    return {"run": check_run, "pp": check_pp, "bad": check_bad}[data["mode"]](tc, data, work)


def candidates(data):
    if len(data["items"]) != 1:
        return
    it = data["items"][0]
    if it[0] == "str":
        parts = it[2]
        for i in range(len(parts)):
            if len(parts) > 1:
                yield {**data, "items": [["str", it[1], parts[:i] + parts[i + 1:], *it[3:]]]}
            for j in range(0, len(parts[i]), max(1, len(parts[i]) // 8)):
                yield {**data, "items": [["str", it[1], parts[:i] + [parts[i][:j] + parts[i][j + max(1, len(parts[i]) // 8):]] + parts[i + 1:], *it[3:]]]}


def sample(data):
    if data["mode"] == "bad":
        return {"malformed": [it[1] for it in data["items"]]}
    if data["mode"] == "pp":
        return {"#if literals": [pp_item(it)[0] for it in data["items"][:6]]}
    o = Opt(data)
    return {"target": data["target"], "options": o.flags, "literals": [render(o, it, 0)[1][:200] for it in data["items"][:4]]}
