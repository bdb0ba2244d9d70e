"""P02: conditional compilation."""
import os
from vlib import core, ppmodel, exprcheck
from vlib.core import Infra
from vlib.ppmodel import UB

ID = "P02"
NEEDS = ("smlrpp",)
QUICK = (6000, 60)
THOROUGH = (400000, 700)
TECHNIQUE = "property-based testing: generated #if trees and expressions, reference evaluator and gcc -E as oracles"
LEVEL_NOTE = "Random conditional expressions (all operators, signed and unsigned 64-bit, unevaluated errors, macros, defined, character constants) and nested groups with directives of every kind in skipped text, plus malformed conditionals that must be diagnosed."
RULE = ("Each evaluation is one source of nested conditionals whose kept marker tokens must be those the reference evaluator selects (gcc -E agrees), and which must fail (nonzero exit) exactly when the reference finds a constraint violation in processed text. "
        "Non-trivial: at least one #if or #elif expression with two or more operators is evaluated; distinct by source.")
ASSUMPTIONS = ["intmax_t is 64 bits", "signed overflow, shifts out of range and evaluated commas are not generated in evaluated operands (undefined or diagnosable)", "implementation-defined character values are not used"]

M64 = (1 << 64) - 1
SMAX = (1 << 63) - 1
NAMES = ["A", "B", "C", "F", "G", "FOO", "_X", "a1", "int", "while", "if", "define"]
BIN = {"*": 12, "/": 12, "%": 12, "+": 11, "-": 11, "<<": 10, ">>": 10, "<": 9, "<=": 9, ">": 9, ">=": 9, "==": 8, "!=": 8, "&": 7, "^": 6, "|": 5, "&&": 4, "||": 3}


class Bad(Exception):
    """Constraint violation: must be diagnosed."""


class Ev:
    """Evaluator of an #if expression over expanded tokens: (value, unsigned)."""

    def __init__(self, ts):
        self.t, self.i, self.ops = ts, 0, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def run(self):
        v = self.expr(0, True)
        if self.i != len(self.t):
            raise Bad("trailing")
        return v[0] != 0

    def wrap(self, n, u, ev):
        if u:
            return n & M64, 1
        if not -SMAX - 1 <= n <= SMAX:
            if ev:
                raise UB("overflow")
            n = 0
        return n, 0

    def prim(self, ev):
        t = self.peek()
        if t is None:
            raise Bad("truncated")
        self.i += 1
        if t == "(":
            v = self.expr(0, ev, True)
            if self.peek() != ")":
                raise Bad(")")
            self.i += 1
            return v
        if t in "+-~!":
            self.ops += 1
            v, u = self.prim(ev)
            if t == "+":
                return v, u
            if t == "-":
                return self.wrap(-v, u, ev)
            if t == "~":
                return (v ^ M64, 1) if u else (~v, 0)
            return int(v == 0), 0
        if t[0].isdigit():
            return self.num(t)
        if t[0] == "'" or t[:2] == "L'":
            return self.chr(t), 0
        if t[0].isalpha() or t[0] == "_":
            return 0, 0
        raise Bad("token " + t)

    def num(self, t):
        s = t.lower()
        k = len(s)
        base = 16 if s.startswith("0x") else 8 if s[0] == "0" else 10
        d = s[2:] if base == 16 else s
        body = d.rstrip("ul")
        suf = d[len(body):]
        if suf not in ("", "u", "l", "ul", "lu", "ll", "ull", "llu") or ("l" in suf and ("Ll" in t or "lL" in t)):
            raise Bad("suffix")
        try:
            n = int(body, base) if base != 8 else int("0" + body, 8)
        except ValueError:
            raise Bad("number")
        if n > M64:
            raise UB("too large")
        if "u" in suf:
            return n, 1
        if n > SMAX:
            if base == 10:
                raise UB("too large")
            return n, 1
        return n, 0

    def chr(self, t):
        b = t[t.index("'") + 1:-1]
        if not b:
            raise Bad("empty")
        if b[0] != "\\":
            if len(b) != 1:
                raise UB("multichar")
            return ord(b)
        e = b[1:]
        m = {"n": 10, "t": 9, "v": 11, "b": 8, "r": 13, "f": 12, "a": 7, "\\": 92, "?": 63, "'": 39, '"': 34}
        if e in m:
            return m[e]
        v = int(e[1:], 16) if e[0] == "x" else int(e, 8)
        if v > 127:
            raise UB("char")
        return v

    def expr(self, minp, ev, comma=False):
        l = self.prim(ev)
        while True:
            t = self.peek()
            if t in BIN and BIN[t] > minp:
                self.i += 1
                self.ops += 1
                if t in ("&&", "||"):
                    r = self.expr(BIN[t], ev and ((l[0] != 0) == (t == "&&")))
                    l = (int(l[0] != 0 and r[0] != 0) if t == "&&" else int(l[0] != 0 or r[0] != 0), 0)
                else:
                    l = self.bin(t, l, self.expr(BIN[t], ev), ev)
            elif t == "?" and minp <= 2:
                self.i += 1
                self.ops += 1
                c = l[0] != 0
                a = self.expr(0, ev and c, True)
                if self.peek() != ":":
                    raise Bad(":")
                self.i += 1
                b = self.expr(2, ev and not c)
                u = a[1] | b[1]
                v = a[0] if c else b[0]
                l = (v & M64 if u else v, u)
            elif t == "," and comma and minp == 0:
                if ev:
                    raise UB("comma")
                self.i += 1
                l = self.expr(0, ev, True)
            else:
                return l

    def bin(self, t, a, b, ev):
        (x, xu), (y, yu) = a, b
        if t in ("<<", ">>"):
            if not 0 <= y < 64 or (x < 0 and t == "<<"):
                if ev:
                    raise UB("shift")
                return 0, xu
            if t == ">>":
                if x < 0 and ev:
                    pass
                return x >> y, xu
            return self.wrap(x << y, xu, ev)
        u = xu | yu
        if u:
            x, y = x & M64, y & M64
        if t in ("/", "%"):
            if y == 0:
                if ev:
                    raise Bad("division by zero")
                return 0, u
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            if not u and q > SMAX and ev:
                raise UB("overflow")
            return self.wrap(q if t == "/" else x - q * y, u, ev)
        if t in ("*", "+", "-"):
            return self.wrap(x * y if t == "*" else x + y if t == "+" else x - y, u, ev)
        if t in "&^|":
            n = x & y if t == "&" else x ^ y if t == "^" else x | y
            return n, u
        return int({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[t]), 0


# ---------------------------------------------------------------- generation

def lit(rng):
    k = rng.random()
    if k < 0.08:
        return rng.choice(["'a'", "'0'", "'\\n'", "'\\0'", "'\\x41'", "'\\101'", "'\\\\'", "'\\''", "'\"'", "' '", "L'a'", "'\\?'", "'\\a'", "'\\v'", "'\\f'", "'\\b'", "'\\r'", "'\\t'", "'\\177'", "L'\\x7f'"])
    n = rng.choice([0, 0, 1, 1, 2, 3, 5, 7, 8, 31, 32, 63, 64, 100, 255, 256, 65535, 65536, SMAX >> 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, SMAX, SMAX - 1, 1 << 63, M64, M64 - 1, rng.getrandbits(8), rng.getrandbits(31), rng.getrandbits(63), rng.getrandbits(64)])
    suf = rng.choice(["", "", "", "", "u", "U", "l", "L", "ul", "UL", "lu", "Lu", "ll", "LL", "ull", "uLL", "LLU", "llu"])
    f = rng.choice("dddox")
    if f == "d":
        if n > SMAX and "u" not in suf.lower():
            suf = "u" + suf if suf.lower() != "l" or True else suf
        return "%d%s" % (n, suf)
    if f == "o":
        return "0%o%s" % (n, suf)
    return rng.choice(["0x%x%s", "0X%X%s"]) % (n, suf)


def ex(rng, d, fm, ma=()):
    """Random expression text."""
    k = rng.random()
    if d > 1 and k > 0.9:
        # what makes a type or a single bit of a result visible
        e = ex(rng, d - 1, fm, ma)
        k = rng.randrange(64)
        return rng.choice(["(0 * (%s) - 1) < 0" % e, "((%s) & 0 | -1) > 0" % e, "(1 ? -1 : (%s)) < 0" % e, "((%s) >> %d & 1)" % (e, k), "(%s) & 1u << %d" % (e, k), "((%s) & 0xff) == %d" % (e, rng.randrange(4)), "(%s) < 0" % e])
    if d <= 0 or k < 0.12:
        k = rng.random()
        if ma and k < 0.5:
            return rng.choice(list(ma))
        if k < 0.6:
            return lit(rng)
        if k < 0.8:
            return rng.choice(NAMES)
        n = rng.choice(NAMES)
        return rng.choice(["defined %s", "defined(%s)", "defined ( %s )", "defined/**/%s"]) % n
    if k < 0.3:
        e = ex(rng, d - 1, fm, ma)
        o = rng.choice("!~-+")
        return o + (" " if e[0] == o and o in "+-" else rng.choice(["", " "])) + e
    if k < 0.4:
        return "(%s)" % ex(rng, d - 1, fm, ma)
    if k < 0.5:
        return "%s ? %s : %s" % (ex(rng, d - 1, fm, ma), ex(rng, d - 1, fm, ma), ex(rng, d - 1, fm, ma))
    if k < 0.55 and fm:
        n, np = rng.choice(fm)
        return "%s(%s)" % (n, ", ".join(ex(rng, d - 2, fm, ma).replace(",", "+") if True else "" for _ in range(np)))
    if k < 0.57:
        return "%s && (%s)" % (rng.choice(["0", "0u"]), rng.choice(["1/0", "5%0", "1, 2", "1 << 99", "0x7fffffffffffffff + 1", "-1 / (1-1)", "1/(0&&1)", "(1/0) + (2%0)"]))
    o = rng.choice(list(BIN))
    a, b = ex(rng, d - 1, fm, ma), ex(rng, d - 1, fm, ma)
    if rng.random() < 0.5:
        a = "(%s)" % a
    if rng.random() < 0.5:
        b = "(%s)" % b
    if o in ("<<", ">>") and rng.random() < 0.8:
        b = str(rng.randrange(0, 64)) + rng.choice(["", "", "u", "L", "uL"])
    if o == b[0] and o in "+-&":
        return "%s %s %s" % (a, o, b)
    return "%s%s%s%s%s" % (a, rng.choice(["", " "]), o, rng.choice(["", " "]) if b[0] not in "+-&|<>=!*" else " ", b)


BADX = ["", "1 +", "(1", "1)", "1 2", "1 ? 2", "defined", "defined(", "defined 1", "defined()", "1.0", '"s"', "1 = 1", "()", "+", "1 ? : 2", "= 1", "1/0", "5%0", "1 && 2/0", "0 || 5%(3-3)", "(1 ? 2 : 3", "1 : 2", "08", "0x", "1uu", "3x", "''", "@", "1 ; 2", "!", "~", "defined(A", "a b", "1 ? 2 : ", "{1}", "&&1", "1 ||", "1 <", "0 && (", "1 || 2 )", "#", "1 # 2", "A.b", "-", "1e0", "0b2", "1 defined A"]
JUNK = ["#error no", "#include \"no such file\"", "#include <nothing.h>", "#define A 99", "#undef B", "#line 77", "#pragma foo", "#", "# 5 \"x\"", "#foo bar", "#warning w",
        "#define", "#define 1", "#include", "#line x", "#undef", "/* #endif */", "// #endif", "/*\n#else\n#endif\n*/", '"#endif"', "x #endif", "#en\\\ndif_", "@ $ ` \\ y",
        "'#endif'", "\"a /* \"", "#ident \"x\"", "#unassert q", "#endifx", "#elsex", "#elifx 1", "#ifx", "a // \\\n#endif", "#define F(", "#define F(a,a) 1", "#define X ## 1"]


def deco(rng, d):
    """Directive spelling."""
    if rng.random() < 0.75:
        return "#" + d
    s = rng.choice(["", " ", "\t", "/* c */", " /* a\nb */ "]) + "#" + rng.choice(["", " ", "\t ", "/**/"]) + d
    if rng.random() < 0.2:
        k = s.index("#") + 1 + rng.randrange(1, len(d.split(" ")[0]) + 1)
        if "/*" not in s[s.index("#"):]:
            s = s[:k] + "\\\n" + s[k:]
    if rng.random() < 0.3:
        s += rng.choice(["  ", " // x", " /* y */", " /* z\n */", "\t"])
    return s


def gen(rng, idx, tier):
    items, mk = [], [0]
    opts = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        n = rng.choice(NAMES[:8])
        opts.append(rng.choice([["-D", n], ["-D", n + "=" + rng.choice(["0", "1", "5", "-1", "(2)", "1+1", ""])], ["-D" + n + "=3"], ["-D" + n], ["-U", n], ["-D%s(x)=((x)+1)" % n]]))
    bad = rng.random() < 0.25
    fm = []

    def mark():
        mk[0] += 1
        items.append(["text", "", "k%d" % mk[0]])

    def defs():
        for _ in range(rng.choice([0, 1, 2, 3])):
            n = rng.choice(NAMES[:8])
            k = rng.random()
            if k < 0.15:
                items.append(["undef", n, deco(rng, "undef " + n)])
            elif k < 0.4:
                np = rng.choice([0, 1, 2])
                ps = ["a", "b"][:np]
                b = ex(rng, 2, [], ps).replace(",", "+")
                if "defined" in b:
                    continue
                items.append(["undef", n, "#undef " + n])
                items.append(["deff", [n, ps, "(%s)" % b], deco(rng, "define %s(%s) (%s)" % (n, ",".join(ps), b))])
                fm.append((n, np))
            else:
                b = rng.choice([lit(rng), ex(rng, 1, []), "(%s)" % ex(rng, 2, []), ""])
                if "defined" in b:
                    continue
                items.append(["undef", n, "#undef " + n])
                items.append(["def", [n, b], deco(rng, "define %s %s" % (n, b))])

    def cond(first):
        k = rng.random()
        if first and k < 0.15:
            n = rng.choice(NAMES)
            items.append(["ifdef", n, deco(rng, "ifdef " + n)])
        elif first and k < 0.3:
            n = rng.choice(NAMES)
            items.append(["ifndef", n, deco(rng, "ifndef " + n)])
        else:
            w = "if" if first else "elif"
            e = ex(rng, rng.choice([0, 1, 2, 3, 4]), fm)
            if bad and rng.random() < 0.1:
                e = rng.choice(BADX)
            elif rng.random() < 0.08:
                e = rng.choice(BADX)
                if first:
                    items.append([w, "0", "#%s 0" % w])
                    items.append([w, e, "#%s %s" % (w, e)])
                    items.append(["endif", "", "#endif"])
                    items.append(["endif", "", "#endif"])
                    return cond(first)
                return items.append([w, e, "#%s %s" % (w, e)])
            items.append([w, e, deco(rng, w + (" " if e[:1] not in "(!~-+'\"" or rng.random() < 0.7 else "") + e)])

    def group(d):
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < 0.4 or d <= 0:
                mark()
            elif k < 0.5:
                defs()
            elif k < 0.62:
                items.append(["junk", "", rng.choice(JUNK)])
            else:
                tree(d - 1)

    def tree(d):
        cond(True)
        group(d)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            cond(False)
            group(d)
        if rng.random() < 0.5:
            items.append(["else", "", deco(rng, "else")])
            group(d)
        items.append(["endif", "", deco(rng, "endif")])
        mark()
    defs()
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        tree(rng.choice([0, 1, 2, 3, 5]))
    if bad:
        k = rng.random()
        w = rng.choice([["else", "", "#else"], ["elif", "1", "#elif 1"], ["endif", "", "#endif"], ["if", "1", "#if 1"], ["ifdef", "", "#ifdef"], ["ifndef", "", "#ifndef"], ["ifdef", "1", "#ifdef 1"], ["junk", "", "#error e"], ["if", rng.choice(BADX), None], ["ifdef", "A", "#ifdef A"], ["elif", rng.choice(BADX), None]])
        if w[2] is None:
            w[2] = "#%s %s" % (w[0], w[1])
        items.insert(rng.randrange(len(items) + 1), w)
    return {"items": items, "opts": opts}


# ---------------------------------------------------------------- model

def expand_if(text, cur):
    """Tokens of an #if expression after `defined` and macro replacement."""
    ts = ppmodel.lex(text)
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.k == "id" and t.s == "defined":
            n = None
            if i + 1 < len(ts) and ts[i + 1].k == "id":
                n, i = ts[i + 1].s, i + 2
            elif i + 3 < len(ts) and ts[i + 1].s == "(" and ts[i + 2].k == "id" and ts[i + 3].s == ")":
                n, i = ts[i + 2].s, i + 4
            else:
                raise Bad("defined")
            out.append(ppmodel.T(str(int(n in cur)), "num", t.w))
            continue
        out.append(t)
        i += 1
    e = ppmodel.Expander(cur)
    r = e.expand(out)
    if e.unspec:
        raise UB("unspecified")
    return [t.s for t in r]


def model(data):
    """-> (markers kept, error expected, ops evaluated, expressions)."""
    cur, gone = {}, set()
    for o in data["opts"]:
        s = o[1] if len(o) > 1 else o[0][2:]
        if o[0].startswith("-U"):
            cur.pop(s, None)
            gone.add(s)
            continue
        n, _, v = s.partition("=")
        if n.split("(")[0] in gone:
            raise UB("-U before -D")      # smlrpp lets -U win wherever it stands, as POSIX's c99 does; gcc goes by the order
        v = v if "=" in s else "1"
        ps = None
        if "(" in n:
            n, ps = n.split("(")[0], ["x"]
        if n in cur:
            raise UB("redefined")
        cur[n] = ppmodel.Macro(n, ps, False, ppmodel.lex(v))
    st = []            # [parent active, taken, active, else seen]
    kept, ops, nex, err = [], 0, 0, None

    def active():
        return not st or st[-1][2]

    def ev(text):
        nonlocal ops, nex
        e = Ev(expand_if(text, cur))
        v = e.run()
        ops = max(ops, e.ops)
        nex += 1
        return v
    for kind, arg, text in data["items"]:
        try:
            if kind in ("if", "ifdef", "ifndef"):
                a = active()
                st.append([a, not a, False, False])
                if a:
                    if kind == "if":
                        c = ev(arg)
                    else:
                        if not arg or not (arg[0].isalpha() or arg[0] == "_"):
                            raise Bad(kind)
                        c = (arg in cur) == (kind == "ifdef")
                    st[-1][1] = st[-1][2] = c
            elif kind == "elif":
                if not st or st[-1][3]:
                    if st and not st[-1][0]:
                        # inside a skipped outer group only the nesting counts
                        raise UB("skipped elif after else")
                    raise Bad("elif")
                s = st[-1]
                s[2] = False
                if s[0] and not s[1]:
                    s[1] = s[2] = ev(arg)
            elif kind == "else":
                if not st or st[-1][3]:
                    if st and not st[-1][0]:
                        raise UB("skipped else after else")
                    raise Bad("else")
                s = st[-1]
                s[3] = True
                s[2] = s[0] and not s[1]
                s[1] = True
            elif kind == "endif":
                if not st:
                    raise Bad("endif")
                st.pop()
            elif not active():
                pass
            elif kind == "text":
                kept.append(text)
            elif kind == "def":
                n, b = arg
                if n in cur:
                    raise UB("redefined")
                cur[n] = ppmodel.Macro(n, None, False, ppmodel.lex(b))
            elif kind == "deff":
                n, ps, b = arg
                if n in cur:
                    raise UB("redefined")
                cur[n] = ppmodel.Macro(n, ps, False, ppmodel.lex(b))
            elif kind == "undef":
                cur.pop(arg, None)
            elif kind == "junk":
                if text.startswith("#error"):
                    raise Bad("#error")
                if text not in ("#", "#pragma foo", "/* #endif */", "// #endif", "/*\n#else\n#endif\n*/", "#line 77", '"#endif"', "'#endif'"):
                    raise UB("junk outside skipped text")
        except Bad as e:
            err = err or str(e) or "bad"
            break
    if err is None and st:
        err = "unterminated"
    return kept, err, ops, nex


def source(data):
    return "\n".join(it[2] for it in data["items"]) + "\n"


def marks(out):
    return [t for t in ppmodel.spell(out) if t[0] == "k" and t[1:].isdigit()]


def check(tc, data, work):
    try:
        kept, err, ops, nex = model(data)
    except (UB, RecursionError):
        return None, {"undefined": 1}
    src = source(data)
    open(os.path.join(work, "t.c"), "w").write(src)
    fl = [x for o in data["opts"] for x in o]
    g = core.run(["gcc", "-E", "-P", "-undef", "-nostdinc", "-std=c99", "-pedantic", *fl, "-x", "c", "t.c"], cwd=work, cpu=10)
    if (g.rc != 0) != (err is not None):
        return None, {"gcc_disagrees": 1}
    if not err and marks(g.out.decode("latin-1")) != kept:
        return None, {"gcc_disagrees": 1}
    r = core.run([os.path.join(tc.bin, "smlrpp"), "-zI", "-l", *fl, "t.c"], cwd=work, cpu=10)
    if r.rc == "wall":
        raise Infra("wall")
    st = {"evaluations": 1, "nontrivial_keys": [exprcheck.hash_key(src)] if ops > 1 else [], "expressions": nex, "errors": int(err is not None), "operators": ops}
    e = r.err.decode("latin-1")[:300]
    head = "options %s\n%s" % (" ".join(fl), src)
    if err:
        if r.rc == 0 and not (err in ("else", "elif") and "rogue" in e):
            return {"msg": "accepted although invalid (%s): %s\n%s" % (err, e, head)}, st
        if r.rc < 0:
            return {"msg": "crash (%s): %s\n%s" % (r.rc, e, head)}, st
        return None, st
    if r.rc != 0:
        return {"msg": "valid source rejected (%s): %s\n%s" % (r.rc, e, head)}, st
    got = marks(r.out.decode("latin-1"))
    if got != kept:
        return {"msg": "kept %s, expected %s (gcc agrees)\n%s" % (" ".join(got), " ".join(kept), head)}, st
    return None, st


def candidates(data):
    its = data["items"]
    for i in range(len(data["opts"])):
        yield {**data, "opts": data["opts"][:i] + data["opts"][i + 1:]}
    for i in range(len(its)):
        for j in range(i, min(i + 9, len(its))):
            if its[j][0] == "endif":
                yield {**data, "items": its[:i] + its[j + 1:]}
                yield {**data, "items": its[:i] + its[i + 1:j] + its[j + 1:]}
    for i, it in enumerate(its):
        yield {**data, "items": its[:i] + its[i + 1:]}
    for i, it in enumerate(its):
        if it[0] in ("if", "elif"):
            t = ppmodel.spell(it[1])
            for n in (9, 5, 3, 2, 1):
                for j in range(len(t) - n + 1):
                    s = " ".join(t[:j] + t[j + n:])
                    yield {**data, "items": its[:i] + [[it[0], s, "#%s %s" % (it[0], s)]] + its[i + 1:]}
        elif it[0] in ("else", "endif") and it[2] != "#" + it[0]:
            yield {**data, "items": its[:i] + [[it[0], "", "#" + it[0]]] + its[i + 1:]}


def sample(data):
    return {"source": source(data)[:500], "options": data["opts"]}
