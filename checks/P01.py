"""P01: macro expansion."""
import os
from vlib import core, ppmodel, exprcheck
from vlib.core import Infra
from vlib.ppmodel import UB

ID = "P01"
NEEDS = ("smlrpp",)
QUICK = (5000, 60)
THOROUGH = (400000, 700)
TECHNIQUE = "property-based testing: generated macro sets and calls, reference expander (Prosser's algorithm) and gcc -E as oracles"
LEVEL_NOTE = "Random sets of object-like, function-like and variadic macros with #, ##, nesting, recursion, #undef and identical redefinition, called in random token contexts; output tokens compared with a reference model and gcc."
RULE = ("Each evaluation is one source of macro definitions and text lines, whose smlrpp output must be, as a token sequence, the one prescribed by the reference expander; gcc -E must agree with the reference (cases the standard leaves unspecified are those where the two differ or an argument list continues past a replacement: then either result is accepted). "
        "Non-trivial: at least two macro replacements; distinct by source.")
ASSUMPTIONS = ["line positions are left to P03", "invalid pastes, unterminated calls, wrong argument counts and directives inside arguments are not generated (undefined or errors)", "white space inside a string made by # from an already expanded argument is compared modulo blanks"]

NAMES = ["A", "B", "C", "F", "G", "H", "K", "foo", "_x", "L", "e1"]
PARAMS = ["a", "b", "c", "x1", "A", "F", "e"]
OPS = ["+", "-", "*", "/", "%", "<", ">", "=", "!", "~", "?", ":", ";", ".", "->", "++", "--", "<<", ">>", "==", "!=", "<=", ">=", "&&", "||", "&", "|", "^", "+=", "-=", "<<=", "[", "]", "{", "}", "..."]
NUMS = ["0", "1", "2", "42", "0x1F", "1e", "1.5", ".5", "1e+3", "10u", "7L", "0xe", "0xE.", "1.", "3x"]
STRS = ['"s"', '"a b"', '"\\n"', '"\\""', "'c'", "'\\''", 'L"w"', "L'w'", '"\\\\"', '","', "')'", '"//"', '"/*"', '""', "' '"]
IDS = ["p", "q", "int", "xyz", "a", "_", "L", "u8", "e", "x"]


def lit(rng):
    """A string or character constant with any quotes and escapes."""
    q = rng.choice("\"'")
    n = rng.choice([1, 1, 2, 3, 6]) if q == '"' else rng.choice([1, 1, 1, 2, 3])
    b = "".join(rng.choice(["\\\\", "\\\"", "\\'", "\\n", "\\0", "\\x41", "'" if q == '"' else '"', "'" if q == '"' else '"', "a", " ", "#", "##", "%", ",", "(", ")", "//", "/*", "L"]) for _ in range(n))
    return rng.choice(["", "", "", "L"]) + q + b + q


def word(rng, names):
    k = rng.random()
    if k < 0.3:
        return rng.choice(names)
    if k < 0.5:
        return rng.choice(IDS)
    if k < 0.65:
        return rng.choice(NUMS)
    if k < 0.75:
        return rng.choice(STRS) if rng.random() < 0.5 else lit(rng)
    return rng.choice(OPS)


def ws(rng):
    return rng.choice(["", "", " ", " ", "  ", "\t", " /* c */ ", "/**/"])


def glue(rng, toks, nl=False):
    """Join tokens with random white space, keeping them apart where they would merge."""
    s = ""
    for t in toks:
        w = rng.choice(["\n", " \n ", "// c\n", "/* c\n c */"]) if nl and rng.random() < 0.05 else ws(rng)
        if s and w.strip() in ("", "/**/") and w in ("",):
            x = ppmodel.spell(s.rsplit("\n", 1)[-1] + t)
            y = ppmodel.spell(s.rsplit("\n", 1)[-1])
            if x != y + ppmodel.spell(t):
                w = " "
        s += w + t
    return s


def body(rng, params, va, names, md):
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
    out = []
    pl = params + (["__VA_ARGS__"] if va else [])

    def operand():
        if pl and rng.random() < 0.6:
            return [rng.choice(pl)]
        if rng.random() < 0.35:
            return call(rng, names, md, pl, 1)
        return [word(rng, names)]
    while len(out) < n:
        k = rng.random()
        if k < 0.12 and pl:
            out += ["#", rng.choice(pl)]
        elif k < 0.3:
            l = [rng.choice(pl)] if pl and rng.random() < 0.7 else [rng.choice(IDS + NUMS + names + ["<", "L", "+"])]
            for _ in range(rng.choice([1, 1, 1, 2])):
                l += ["##", rng.choice(pl) if pl and rng.random() < 0.6 else rng.choice(IDS + NUMS + names + ["=", "<", '"s"', "+"])]
            out += l
        else:
            out += operand()
    return out


def args(rng, names, md, pl, d, np, va):
    n = np + (1 if va else 0)
    if va and rng.random() < 0.4:
        n += rng.randrange(1, 4)
    ar = []
    for _ in range(n):
        a = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            k = rng.random()
            if k < 0.12:
                a += ["("] + [word(rng, names), ",", word(rng, names)][:rng.choice([0, 1, 3])] + [")"]
            elif k < 0.35 and d < 3:
                a += call(rng, names, md, pl, d + 1)
            elif pl and k < 0.7:
                a.append(rng.choice(pl))
            else:
                a.append(word(rng, names))
        ar.append(a)
    out = ["("]
    for i, a in enumerate(ar):
        out += ([","] if i else []) + a
    return out + [")"]


def call(rng, names, md, pl, d):
    n = rng.choice(names)
    if n in md and rng.random() < 0.93:
        np, va = md[n]
        if np is None:
            return [n]
        return [n] + args(rng, names, md, pl, d, np, va)
    return [n]


def gen(rng, idx, tier):
    names = rng.sample(NAMES, rng.choice([2, 3, 4, 6]))
    md = {}
    for n in names:
        if rng.random() < 0.35:
            md[n] = (None, False)
        else:
            va = rng.random() < 0.2
            md[n] = (rng.choice([0, 1, 1, 1, 2, 2, 3, 5]), va)
    items, cur = [], {}

    def define(n):
        np, va = md[n]
        ps = rng.sample(PARAMS, np) if np is not None else None
        for _ in range(8):
            b = body(rng, ps or [], va, names, md)
            if b and (b[0] == "##" or b[-1] == "##"):
                continue
            ok = True
            for i, t in enumerate(b):
                if t == "#" and np is not None and (i + 1 >= len(b) or b[i + 1] not in (ps or []) + (["__VA_ARGS__"] if va else [])):
                    ok = False
                if t == "#" and (i > 0 and b[i - 1] == "##" or i + 2 < len(b) and b[i + 2] == "##"):
                    ok = False
            if ok:
                break
        else:
            b = []
        bt = glue(rng, b)
        t = ppmodel.lex(bt)
        if b and [x.s for x in t] != [x for y in b for x in ppmodel.spell(y)]:
            bt = " ".join(b)
        return ["def", n, ps, va, bt]
    for n in names:
        items.append(define(n))
        cur[n] = items[-1]
        if rng.random() < 0.05:
            items.append(list(items[-1]))
        if rng.random() < 0.03:
            items.append(["undef", rng.choice(["nosuch", n])])
            if items[-1][1] == n:
                cur.pop(n)
    for _ in range(rng.choice([1, 2, 4, 8])):
        if rng.random() < 0.12:
            n = rng.choice(names)
            items.append(["undef", n])
            cur.pop(n, None)
            if rng.random() < 0.6:
                items.append(define(n))
                cur[n] = items[-1]
        m = macros(cur)
        for _ in range(30):
            toks = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                toks += call(rng, names, md, [], 0) if rng.random() < 0.8 else [word(rng, names)]
            if rng.random() < 0.1:
                toks += rng.choice([["(", "1", ")"], ["(", ")"], ["(", "1", ",", "2", ")"], ["(", "p", ")", "(", "q", ")"]])
            toks.append(";")
            t = glue(rng, toks, True)
            try:
                ppmodel.Expander(m).expand(ppmodel.lex(t))
            except UB:
                continue
            except RecursionError:
                continue
            if not ppmodel.lex(t) or ppmodel.lex(t)[0].s in ("#", "%:"):
                continue
            items.append(["use", t])
            break
    return {"items": items}


def macros(cur):
    m = {}
    for n, d in cur.items():
        m[n] = ppmodel.Macro(n, d[2], d[3], ppmodel.lex(d[4]))
    return m


def source(items):
    out = []
    for it in items:
        if it[0] == "def":
            ps = "" if it[2] is None else "(" + ", ".join(it[2] + (["..."] if it[3] else [])) + ")"
            out.append("#define %s%s %s" % (it[1], ps, it[4].strip()))
        elif it[0] == "undef":
            out.append("#undef %s" % it[1])
        else:
            out.append(it[1].strip())
    return "\n".join(out) + "\n"


def expected(items):
    cur, out, calls, un = {}, [], 0, False
    for it in items:
        if it[0] == "def":
            if it[1] in cur and cur[it[1]] != it:
                raise UB("redefinition")
            cur[it[1]] = it
        elif it[0] == "undef":
            cur.pop(it[1], None)
        else:
            e = ppmodel.Expander(macros(cur))
            ts = ppmodel.lex(it[1])
            if not ts or ts[-1].s != ";" or ts[0].s in ("#", "%:"):
                raise UB("form")
            out += [t.s for t in e.expand(ts)]
            calls += e.calls
            un = un or e.unspec
    return out, calls, un


def norm(ts):
    return ["".join(t.split()) if t[0] in '"L' else t for t in ts]


def check(tc, data, work):
    try:
        exp, calls, un = expected(data["items"])
    except (UB, IndexError, RecursionError):
        return None, {}
    src = source(data["items"])
    open(os.path.join(work, "t.c"), "w").write(src)
    g = core.run(["gcc", "-E", "-P", "-undef", "-std=c99", "-x", "c", "t.c"], cwd=work, cpu=10)
    if g.rc != 0:
        return None, {"gcc_rejects": 1}
    gt = ppmodel.spell(g.out.decode("latin-1"))
    r = core.run([os.path.join(tc.bin, "smlrpp"), "-zI", "-l", "t.c"], cwd=work, cpu=10)
    if r.rc == "wall":
        raise Infra("wall")
    st = {"evaluations": 1, "nontrivial_keys": [exprcheck.hash_key(src)] if calls > 1 else [], "replacements": calls}
    got = ppmodel.spell(r.out.decode("latin-1"))
    if r.rc != 0:
        return {"msg": "smlrpp fails (%s): %s\n%s" % (r.rc, r.err.decode("latin-1")[:300], src)}, st
    if norm(gt) != norm(exp):
        st["unspecified"] = 1
    if norm(got) in (norm(exp), norm(gt)):
        return None, st
    if un:
        st["unspecified_other"] = 1
        return None, st
    n = next((i for i, (a, b) in enumerate(zip(norm(got), norm(exp))) if a != b), min(len(got), len(exp)))
    return {"msg": "expansion differs at token %d: got ...%s expected ...%s (gcc %s)\n%s" % (n, " ".join(got[max(0, n - 3):n + 5]), " ".join(exp[max(0, n - 3):n + 5]), "agrees" if norm(gt) == norm(exp) else "differs", src)}, st


def candidates(data):
    its = data["items"]
    for i in range(len(its)):
        yield {"items": its[:i] + its[i + 1:]}
    for i, it in enumerate(its):
        k = 4 if it[0] == "def" else 1 if it[0] == "use" else None
        if k is None:
            continue
        t = ppmodel.spell(it[k])
        for j in range(len(t)):
            if it[0] == "use" and j == len(t) - 1:
                continue
            n = list(it)
            n[k] = " ".join(t[:j] + t[j + 1:])
            yield {"items": its[:i] + [n] + its[i + 1:]}


def sample(data):
    return {"source": source(data["items"])[:500]}
