"""Integer expressions of C: generator, reference evaluator and renderer.

The evaluator is the oracle: C99 semantics for a target with isz-byte int/long/pointers, two's complement, conversions to
narrower signed types modulo 2^N, arithmetic right shift. Anything undefined in C raises UB and is never generated.
An item is one test function: variables in given storage, one expression, one context that consumes it.
"""

SIZES = {"char": 1, "schar": 1, "uchar": 1, "short": 2, "ushort": 2}
CNAMES = {"char": "char", "schar": "signed char", "uchar": "unsigned char", "short": "short", "ushort": "unsigned short",
          "int": "int", "uint": "unsigned", "long": "long", "ulong": "unsigned long"}
# other spellings of the same types
SPELL = {"short": ["short", "short int", "signed short"], "ushort": ["unsigned short", "unsigned short int"],
         "int": ["int", "signed", "signed int"], "uint": ["unsigned", "unsigned int"],
         "long": ["long", "long int", "signed long"], "ulong": ["unsigned long", "unsigned long int"]}
PREC = {",": 0, "=": 1, "?": 2, "||": 3, "&&": 4, "|": 5, "^": 6, "&": 7, "==": 8, "!=": 8, "<": 9, "<=": 9, ">": 9, ">=": 9,
        "<<": 10, ">>": 10, "+": 11, "-": 11, "*": 12, "/": 12, "%": 12}
ARITH = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]
REL = ["<", "<=", ">", ">=", "==", "!="]
STORES = ["g", "gu", "sg", "l", "l2", "sl", "p", "ga", "gav", "la", "lav", "gs", "ls", "ps", "pd", "pi", "pn", "pp", "u", "a2",
          "bl", "sa", "psa", "lsa", "pss", "bp"]


class UB(Exception):
    pass


class Cfg:
    """What the reference needs to know of a target."""

    def __init__(self, isz=4, char_signed=True, has_long=True, far=False):
        self.far = far
        self.isz, self.char_signed, self.has_long = isz, char_signed, has_long
        self.types = ["char", "schar", "uchar", "short", "ushort", "int", "int", "uint", "uint"]
        if has_long:
            self.types += ["long", "ulong"]

    def size(self, t):
        return SIZES.get(t, self.isz)

    def signed(self, t):
        return self.char_signed if t == "char" else t[0] != "u"

    def conv(self, v, t):
        n = 8 * self.size(t)
        v &= (1 << n) - 1
        if self.signed(t) and v >> (n - 1):
            v -= 1 << n
        return v

    def rng(self, t):
        n = 8 * self.size(t)
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if self.signed(t) else (0, (1 << n) - 1)

    def promote(self, t):
        if self.size(t) < self.isz:
            return "int"
        return "int" if self.signed(t) else "uint"

    def uac(self, a, b):
        return "uint" if "uint" in (self.promote(a), self.promote(b)) else "int"


# helper functions: name -> (return type, parameter types, body value)
HELPERS = {
    "hi": ("int", ["int"], lambda a: a),
    "hu": ("uint", ["uint", "uint"], lambda a, b: a * 3 + b),
    "hc": ("schar", ["int"], lambda a: a),
    "hb": ("uchar", ["uchar"], lambda a: a),
    "hs": ("short", ["short"], lambda a: a),
    "hw": ("ushort", ["int"], lambda a: a),
    "h3": ("int", ["schar", "ushort", "int"], lambda a, b, c: a ^ b ^ c),
    "h5": ("uint", ["uint", "uchar", "short", "uint", "char"], lambda a, b, c, d, e: a + b + c - d + e),
}


def helper_src(cfg):
    return ("int hi(int a){return a;}\n"
            "unsigned hu(unsigned a,unsigned b){return a*3u+b;}\n"
            "signed char hc(int a){return a;}\n"
            "unsigned char hb(unsigned char a){return a;}\n"
            "short hs(short a){return a;}\n"
            "unsigned short hw(int a){return a;}\n"
            "int h3(signed char a,unsigned short b,int c){return a^b^c;}\n"
            "unsigned h5(unsigned a,unsigned char b,short c,unsigned d,char e){return a+b+c-d+e;}\n")


# ------------------------------------------------------------------ evaluation

def ev(cfg, e, env):
    """-> (value, type, reads, mods). env: list of [type, value], modified in place."""
    k = e[0]
    if k == "lit":
        return e[3], e[2], frozenset(), frozenset()
    if k == "v":
        t, v = env[e[1]]
        return v, t, frozenset([e[1]]), frozenset()
    if k == "un":
        v, t, r, m = ev(cfg, e[2], env)
        if e[1] == "!":
            return int(not v), "int", r, m
        t = cfg.promote(t)
        v = cfg.conv(v, t)
        if e[1] == "-":
            v = -v
        elif e[1] == "~":
            v = ~v
        if t == "int":
            lo, hi = cfg.rng("int")
            if not lo <= v <= hi:
                raise UB("negation overflow")
        return cfg.conv(v, t), t, r, m
    if k == "bin":
        op = e[1]
        a, ta, ra, ma = ev(cfg, e[2], env)
        if op in ("&&", "||"):
            if bool(a) == (op == "||"):
                return int(op == "||"), "int", ra, ma
            b, tb, rb, mb = ev(cfg, e[3], env)
            return int(bool(b)), "int", ra | rb, ma | mb
        b, tb, rb, mb = ev(cfg, e[3], env)
        if op == ",":
            return b, tb, ra | rb, ma | mb
        if ma & (rb | mb) or mb & ra:
            raise UB("unsequenced")
        v, t = binop(cfg, op, a, ta, b, tb)
        return v, t, ra | rb, ma | mb
    if k == "cond":
        c, tc, rc, mc = ev(cfg, e[1], env)
        t = cfg.uac(static_type(cfg, e[2], env), static_type(cfg, e[3], env))
        v, tv, rv, mv = ev(cfg, e[2] if c else e[3], env)
        return cfg.conv(v, t), t, rc | rv, mc | mv
    if k == "cast":
        v, t, r, m = ev(cfg, e[2], env)
        return cfg.conv(v, e[1]), e[1], r, m
    if k == "asg":
        op, i = e[1], e[2]
        v, t, r, m = ev(cfg, e[3], env)
        if i in m:
            raise UB("unsequenced")
        lt = env[i][0]
        if op != "=":
            v, t = binop(cfg, op[:-1], env[i][1], lt, v, t)
            r = r | {i}
        env[i][1] = cfg.conv(v, lt)
        return env[i][1], lt, r, m | {i}
    if k == "inc":
        i = e[3]
        t, old = env[i]
        new, nt = binop(cfg, "+" if e[1] == "++" else "-", old, t, 1, "int")
        env[i][1] = cfg.conv(new, t)
        return (old if e[2] else env[i][1]), t, frozenset([i]), frozenset([i])
    if k == "call":
        rt, pts, f = HELPERS[e[1]]
        args, rs, ms = [], frozenset(), frozenset()
        for a, pt in zip(e[2], pts):
            v, t, r, m = ev(cfg, a, env)
            if m & (rs | ms) or ms & r:
                raise UB("unsequenced")
            rs, ms = rs | r, ms | m
            args.append(cfg.conv(v, pt))
        return cfg.conv(f(*args), rt), rt, rs, ms
    if k == "szt":
        return cfg.size(e[1]), "uint", frozenset(), frozenset()
    if k == "sze":
        return cfg.size(static_type(cfg, e[1], env)), "uint", frozenset(), frozenset()
    raise KeyError(k)


def static_type(cfg, e, env):
    k = e[0]
    if k == "lit":
        return e[2]
    if k == "v":
        return env[e[1]][0]
    if k == "un":
        return "int" if e[1] == "!" else cfg.promote(static_type(cfg, e[2], env))
    if k == "bin":
        if e[1] in ("&&", "||") or e[1] in REL:
            return "int"
        if e[1] == ",":
            return static_type(cfg, e[3], env)
        if e[1] in ("<<", ">>"):
            return cfg.promote(static_type(cfg, e[2], env))
        return cfg.uac(static_type(cfg, e[2], env), static_type(cfg, e[3], env))
    if k == "cond":
        return cfg.uac(static_type(cfg, e[2], env), static_type(cfg, e[3], env))
    if k == "cast":
        return e[1]
    if k == "asg":
        return env[e[2]][0]
    if k == "inc":
        return env[e[3]][0]
    if k == "call":
        return HELPERS[e[1]][0]
    return "uint"


def binop(cfg, op, a, ta, b, tb):
    if op in ("<<", ">>"):
        t = cfg.promote(ta)
        a = cfg.conv(a, t)
        if not 0 <= b < 8 * cfg.isz:
            raise UB("shift count")
        if op == ">>":
            return a >> b, t
        v = a << b
        if t == "int":
            if a < 0 or v > cfg.rng("int")[1]:
                raise UB("left shift")
        return cfg.conv(v, t), t
    t = cfg.uac(ta, tb)
    a, b = cfg.conv(a, t), cfg.conv(b, t)
    if op in REL:
        return int({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]), "int"
    if op in ("/", "%"):
        if b == 0:
            raise UB("division by 0")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        v = q if op == "/" else a - q * b
        if t == "int" and not cfg.rng("int")[0] <= q <= cfg.rng("int")[1]:
            raise UB("division overflow")
    else:
        v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b,
             "^": lambda: a ^ b}[op]()
    if t == "int" and not cfg.rng("int")[0] <= v <= cfg.rng("int")[1]:
        raise UB("overflow")
    return cfg.conv(v, t), t


# ------------------------------------------------------------------ generation

def edge_value(rng, cfg, t):
    lo, hi = cfg.rng(t)
    n = 8 * cfg.size(t)
    r = rng.random()
    if r < 0.35:
        v = rng.choice([0, 1, -1, 2, 3, 7, 10, -2, -7, lo, hi, lo + 1, hi - 1, hi // 2, 127, 128, 255, 256, -128, 32767, 32768, 65535, 65536])
    elif r < 0.55:
        v = (1 << rng.randrange(n)) + rng.choice([-1, 0, 1])
        if rng.random() < 0.3:
            v = -v
    elif r < 0.8:
        v = rng.randrange(-20, 100)
    else:
        v = rng.randrange(lo, hi + 1)
    return cfg.conv(v, t)


def lit_int(rng, cfg, v, want_type=None):
    """A literal AST with value v >= 0 (fits uint)."""
    imax = cfg.rng("int")[1]
    forms = []
    if v <= imax:
        forms += [("%d" % v, "int")] * 3 + [("0x%X" % v, "int"), ("0x%x" % v, "int"), ("0%o" % v, "int")]
        if cfg.has_long:
            forms += [("%dL" % v, "int"), ("%dl" % v, "int"), ("0x%xL" % v, "int")]
        if 32 <= v < 127 and chr(v) not in "'\\\"?":
            forms.append(("'%s'" % chr(v), "int"))
    forms += [("%du" % v, "uint"), ("%dU" % v, "uint"), ("0x%xu" % v, "uint")]
    if cfg.has_long:
        forms += [("%dUL" % v, "uint"), ("%dlu" % v, "uint")]
    if v > imax:
        forms += [("0x%X" % v, "uint"), ("0%o" % v, "uint")]
    s, t = rng.choice(forms)
    return ["lit", s, t, v]


class Gen:
    def __init__(self, rng, cfg, env, const=False, calls=True, effects=True):
        self.rng, self.cfg, self.env = rng, cfg, env
        self.const, self.calls, self.effects = const, calls, effects

    def leaf(self, env, readable):
        rng = self.rng
        if not self.const and readable and rng.random() < 0.68:
            i = rng.choice(sorted(readable))
            return ["v", i]
        r = rng.random()
        if r < 0.06:
            return ["szt", rng.choice(self.cfg.types)]
        if r < 0.12:
            c = rng.choice([0x7f, 0x80, 0xff, 0x41, 0, 0xe9, 10])
            return ["lit", "'\\x%02x'" % c, "int", self.cfg.conv(c, "char")]
        v = abs(edge_value(rng, self.cfg, "uint" if rng.random() < 0.4 else "int"))
        if rng.random() < 0.3:
            v = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31])
        return lit_int(rng, self.cfg, min(v, self.cfg.rng("uint")[1]))

    def fill(self, n, env, readable, modifiable):
        """-> AST of about n nodes, defined in env; env is advanced."""
        for _ in range(6):
            save = [x[:] for x in env]
            e = self._try(n, env, readable, modifiable)
            if e is not None:
                return e
            env[:] = save
        return self.leaf(env, readable)

    def _try(self, n, env, readable, modifiable):
        rng, cfg = self.rng, self.cfg
        if n <= 1:
            return self.leaf(env, readable)
        r = rng.random()
        eff = self.effects and not self.const
        if eff and modifiable and r < 0.16:
            i = rng.choice(sorted(modifiable))
            if rng.random() < 0.3:
                e = ["inc", rng.choice(["++", "--"]), rng.randrange(2), i]
                try:
                    ev(cfg, e, env)
                except UB:
                    return None
                return e
            sub = self.fill(n - 1, env, readable - {i}, modifiable - {i})
            op = rng.choice(["="] + [a + "=" for a in ARITH])
            e = ["asg", op, i, sub]
        elif r < 0.30:
            sub = self.fill(n - 1, env, readable, modifiable)
            e = ["un", rng.choice(["-", "+", "~", "!"]), sub] if rng.random() < 0.6 else ["cast", rng.choice(cfg.types), sub]
        elif r < 0.37:
            c = self.fill(max(1, n // 3), env, readable, modifiable)
            s = [x[:] for x in env]
            a = self.fill(max(1, n // 3), s, readable, modifiable)
            s2 = [x[:] for x in env]
            b = self.fill(max(1, n // 3), s2, readable, modifiable)
            e = ["cond", c, a, b]
        elif r < 0.46:
            a = self.fill(n // 2, env, readable, modifiable)
            s = [x[:] for x in env]
            b = self.fill(n - n // 2 - 1, s, readable, modifiable)
            op = rng.choice(["&&", "||"]) if self.const or rng.random() < 0.75 else ","
            e = ["bin", op, a, b]
        elif self.calls and not self.const and r < 0.55:
            name = rng.choice(sorted(HELPERS))
            pts = HELPERS[name][1]
            args = []
            parts = self.split(readable, modifiable, len(pts))
            for (rd, md) in parts:
                args.append(self.fill(max(1, n // (len(pts) + 1)), env, rd, md))
            e = ["call", name, args]
        elif r < 0.57 and n > 2:
            s = [x[:] for x in env]
            e = ["sze", self.fill(n - 1, s, readable, frozenset())]
            if self.const and rng.random() < 0.5:
                return None
        else:
            (ra, ma), (rb, mb) = self.split(readable, modifiable, 2)
            na = rng.randrange(1, max(2, n - 1))
            a = self.fill(na, env, ra, ma)
            b = self.fill(max(1, n - 1 - na), env, rb, mb)
            e = ["bin", rng.choice(ARITH + ARITH + REL), a, b]
            # steer shift counts and divisors into the defined range instead of rejecting
            if e[1] in ("<<", ">>") and rng.random() < 0.8:
                if rng.random() < 0.5:
                    e[3] = lit_int(rng, cfg, rng.randrange(8 * cfg.isz))
                else:
                    e[3] = ["bin", "&", e[3], ["lit", str(8 * cfg.isz - 1), "int", 8 * cfg.isz - 1]]
                if rng.random() < 0.7:
                    e[2] = ["cast", "uint", e[2]]
            elif e[1] in ("/", "%") and rng.random() < 0.4:
                e[3] = lit_int(rng, cfg, rng.choice([1, 2, 3, 4, 5, 8, 10, 16, 64, 100, 128, 256, 4096, 32767, 1 << (8 * cfg.isz - 2)]))
            elif e[1] in ("+", "-", "*") and rng.random() < 0.3:
                e[3] = ["cast", "uint", e[3]]
        return e if self.ok(e, env) else None

    def ok(self, e, env):
        # children already advanced env: evaluate on the pre-state kept by the caller
        return True

    def split(self, readable, modifiable, n):
        """Readable and modifiable sets for n unsequenced operands."""
        owner = {i: self.rng.randrange(n) for i in modifiable if self.rng.random() < 0.5}
        out = []
        for j in range(n):
            md = frozenset(i for i in owner if owner[i] == j)
            rd = frozenset(i for i in readable if owner.get(i, j) == j)
            out.append((rd, md))
        return out


def gen_expr(rng, cfg, vars_, size, const=False, tries=200, **kw):
    """vars_: list of [type, value]. -> AST that is defined for these values."""
    allv = frozenset(range(len(vars_)))
    for _ in range(tries):
        g = Gen(rng, cfg, None, const, **kw)
        env = [v[:] for v in vars_]
        e = g.fill(size, env, allv, allv if kw.get("effects", True) else frozenset())
        try:
            ev(cfg, e, [v[:] for v in vars_])
            if nodes(e) <= 48:
                return e
        except UB:
            e2 = repair(rng, cfg, e, vars_)
            if e2 is not None and nodes(e2) <= 48:
                return e2
    return g.leaf(vars_, allv)


def repair(rng, cfg, e, vars_):
    """Replaces the operator of undefined nodes, bottom up, until the whole is defined."""
    e = clone(e)
    for _ in range(12):
        try:
            ev(cfg, e, [v[:] for v in vars_])
            return e
        except UB:
            pass
        if not _fix_first(rng, cfg, e, [v[:] for v in vars_]):
            return None
    return None


def clone(e):
    return [clone(x) if isinstance(x, list) else x for x in e]


def _fix_first(rng, cfg, e, env):
    """Finds the innermost node that is undefined and changes it."""
    for x in children(e):
        s = [v[:] for v in env]
        try:
            ev(cfg, x, s)
        except UB:
            # sequenced operands see earlier effects; good enough for repair
            return _fix_first(rng, cfg, x, env)
    if e[0] == "bin":
        e[1] = rng.choice(["&", "|", "^"] + REL)
        return True
    if e[0] == "asg":
        e[1] = rng.choice(["=", "&=", "|=", "^="])
        return True
    if e[0] == "un":
        e[1] = rng.choice(["~", "!", "+"])
        return True
    return False


def children(e):
    k = e[0]
    if k == "un" or k == "cast":
        return [e[2]]
    if k == "bin":
        return [e[2], e[3]]
    if k == "cond":
        return [e[1], e[2], e[3]]
    if k == "asg":
        return [e[3]]
    if k == "call":
        return list(e[2])
    if k == "sze":
        return [e[1]]
    return []


def nodes(e):
    return 1 + sum(nodes(c) for c in children(e))


def replace_child(e, i, new):
    e = clone(e)
    k = e[0]
    if k in ("un", "cast"):
        e[2] = new
    elif k == "bin":
        e[2 + i] = new
    elif k == "cond":
        e[1 + i] = new
    elif k == "asg":
        e[3] = new
    elif k == "call":
        e[2][i] = new
    elif k == "sze":
        e[1] = new
    return e


def simpler(cfg, e):
    """Candidate replacements of e, smaller first."""
    for c in children(e):
        yield c
    if e[0] not in ("lit", "v"):
        yield ["lit", "1", "int", 1]
        yield ["lit", "0", "int", 0]
    for i, c in enumerate(children(e)):
        for s in simpler(cfg, c):
            yield replace_child(e, i, s)


# ------------------------------------------------------------------ rendering

def cname(t, salt=None):
    if salt is not None and t in SPELL:
        return SPELL[t][salt % len(SPELL[t])]
    return CNAMES[t]


def render(e, lv, prec=0, salt=0):
    """lv: list of lvalue texts (each usable as a primary expression)."""
    s, p = _r(e, lv, salt)
    if p < prec or (salt and (len(s) * 7 + salt) % 11 == 0 and p < 15):
        return "(" + s + ")"
    return s


def _r(e, lv, salt):
    k = e[0]
    R = lambda x, p: render(x, lv, p, salt)
    if k == "lit":
        return e[1], 15
    if k == "v":
        t = lv[e[1]]
        return t, 13 if t[0] == "*" else 15
    if k == "un":
        s = R(e[2], 13)
        sp = " " if s[0] in "+-&" and s[0] == e[1] else ""
        return e[1] + sp + s, 13
    if k == "bin":
        p = PREC[e[1]]
        return "%s %s %s" % (R(e[2], p), e[1], R(e[3], p + 1)), p
    if k == "cond":
        return "%s ? %s : %s" % (R(e[1], 3), R(e[2], 1 if e[2][0] != "bin" or e[2][1] != "," else 0), R(e[3], 2)), 2
    if k == "cast":
        return "(%s)%s" % (cname(e[1], salt), R(e[2], 13)), 13
    if k == "asg":
        return "%s %s %s" % (lv[e[2]], e[1], R(e[3], 1)), 1
    if k == "inc":
        t = lv[e[3]]
        if e[2]:
            return ("(%s)" % t if t[0] == "*" else t) + e[1], 14
        return e[1] + t, 13
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(R(a, 1) for a in e[2])), 14
    if k == "szt":
        return "sizeof(%s)" % cname(e[1], salt), 13
    if k == "sze":
        return "sizeof(%s)" % render(e[1], lv, 0, salt), 13
    raise KeyError(k)


def num(cfg, v):
    """Value as plain C text of a type that holds it."""
    lo, hi = cfg.rng("int")
    if v == lo:
        return "(-%d-1)" % hi
    if v < 0:
        return "(%d)" % v
    return "%d" % v if v <= hi else "%du" % v


def storage(cfg, kind, k, i, t, init):
    """-> dict(glob, param, arg, decl, setup, lv, can) for variable i of function k."""
    ct = CNAMES[t]
    n = num(cfg, init)
    u = "%d_%d" % (k, i)
    x = "x%d" % i
    d = dict(glob="", param=None, arg=None, decl="", setup="", lv=x, can=[])
    cv = [cfg.conv(0x5A + 3 * j + i, t) for j in range(6)]
    c = [num(cfg, z) for z in cv]
    if kind == "g":
        d.update(glob="%s g%s=%s;" % (ct, u, n), lv="g" + u)
    elif kind == "gu":
        d.update(glob="%s g%s;" % (ct, u), setup="g%s=%s;" % (u, n), lv="g" + u)
    elif kind == "sg":
        d.update(glob="static %s g%s=%s;" % (ct, u, n), lv="g" + u)
    elif kind == "l":
        d.update(decl="%s %s=%s;" % (ct, x, n))
    elif kind == "l2":
        d.update(decl="%s %s;" % (ct, x), setup="%s=%s;" % (x, n))
    elif kind == "sl":
        d.update(decl="static %s %s=%s;" % (ct, x, n))
    elif kind == "p":
        d.update(param="%s %s" % (ct, x), arg=n)
    elif kind in ("ga", "gav"):
        d.update(glob="%s g%s[5]={%s,%s,%s,%s,%s};" % (ct, u, c[0], c[1], n, c[3], c[4]))
        d["lv"] = "g%s[2]" % u
        if kind == "gav":
            d["decl"] = "int i%d=2;" % i
            d["lv"] = "g%s[i%d]" % (u, i)
        d["can"] = [("g%s[%d]" % (u, j), cv[j]) for j in (0, 1, 3, 4)]
    elif kind in ("la", "lav"):
        d["decl"] = "%s %s[5];" % (ct, x)
        d["setup"] = "".join("%s[%d]=%s;" % (x, j, n if j == 2 else c[j]) for j in range(5))
        d["lv"] = x + "[2]"
        if kind == "lav":
            d["decl"] += "unsigned char i%d=2;" % i
            d["lv"] = "%s[i%d]" % (x, i)
        d["can"] = [("%s[%d]" % (x, j), cv[j]) for j in (0, 1, 3, 4)]
    elif kind in ("gs", "ls", "ps", "pss"):
        st = "struct S%s{char a;%s m;char b;}" % (u, ct)
        init3 = "{90,%s,91}" % n
        if kind == "gs":
            d.update(glob="%s g%s=%s;" % (st, u, init3), lv="g%s.m" % u)
            o = "g%s." % u
        elif kind == "ls":
            d.update(glob=st + ";", decl="struct S%s %s=%s;" % (u, x, init3), lv=x + ".m")
            o = x + "."
        elif kind == "ps":
            d.update(glob="%s g%s=%s;" % (st, u, init3), decl="struct S%s*%s=&g%s;" % (u, x, u), lv=x + "->m")
            o = "g%s." % u
        else:
            d.update(glob=st + ";", decl="struct S%s y%d=%s;struct S%s*%s=&y%d;struct S%s**z%d=&%s;" % (u, i, init3, u, x, i, u, i, x),
                     lv="(*z%d)->m" % i)
            o = "y%d." % i
        d["can"] = [(o + "a", cfg.conv(90, "char")), (o + "b", cfg.conv(91, "char"))]
    elif kind == "pd":
        d.update(decl="%s y%d=%s;%s*%s=&y%d;" % (ct, i, n, ct, x, i), lv="*" + x)
    elif kind == "pi":
        d.update(glob="%s g%s[5]={%s,%s,%s,%s,%s};" % (ct, u, c[0], c[1], c[2], n, c[4]), decl="%s*%s=g%s+1;" % (ct, x, u), lv=x + "[2]")
        d["can"] = [("g%s[%d]" % (u, j), cv[j]) for j in (0, 1, 2, 4)]
    elif kind == "pn":
        d.update(glob="%s g%s[5]={%s,%s,%s,%s,%s};" % (ct, u, c[0], n, c[2], c[3], c[4]),
                 decl="%s*%s=&g%s[3];int i%d=-2;" % (ct, x, u, i), lv="*(%s+i%d)" % (x, i))
        d["can"] = [("g%s[%d]" % (u, j), cv[j]) for j in (0, 2, 3, 4)]
    elif kind == "pp":
        d.update(decl="%s y%d=%s;%s*z%d=&y%d;%s**%s=&z%d;" % (ct, i, n, ct, i, i, ct, x, i), lv="**" + x)
    elif kind == "u":
        d.update(glob="union U%s{%s m;char c[%d];};" % (u, ct, cfg.size(t) + 2), decl="union U%s %s;" % (u, x),
                 setup="%s.c[%d]=77;%s.m=%s;" % (x, cfg.size(t), x, n), lv=x + ".m")
        d["can"] = [("%s.c[%d]" % (x, cfg.size(t)), 77)]
    elif kind == "a2":
        d.update(glob="%s g%s[3][4]={{%s,%s},{%s,%s,%s,%s},{%s}};" % (ct, u, c[0], c[1], c[2], c[3], n, c[4], c[5]),
                 decl="int i%d=1,j%d=2;" % (i, i), lv="g%s[i%d][j%d]" % (u, i, i))
        d["can"] = [("g%s[1][1]" % u, cv[3]), ("g%s[1][3]" % u, cv[4]), ("g%s[2][0]" % u, cv[5])]
    elif kind == "bl":
        d.update(decl="%s %s;char w%d[300];" % (ct, x, i), setup="w%d[0]=33;w%d[299]=44;%s=%s;" % (i, i, x, n))
        d["can"] = [("w%d[0]" % i, 33), ("w%d[299]" % i, 44)]
    elif kind == "sa":
        d.update(glob="struct S%s{short a;%s m[3];char b;}g%s={90,{%s,%s,%s},91};" % (u, ct, u, c[0], n, c[2]), lv="g%s.m[1]" % u)
        d["can"] = [("g%s.a" % u, 90), ("g%s.b" % u, cfg.conv(91, "char")), ("g%s.m[0]" % u, cv[0]), ("g%s.m[2]" % u, cv[2])]
    elif kind == "psa":
        d.update(glob="struct S%s{char a;%s m[3];char b;}g%s[2]={{1,{%s,%s,%s},2},{90,{%s,%s,%s},91}};" % (u, ct, u, c[0], c[1], c[2], c[3], c[4], n),
                 decl="struct S%s*%s=g%s;" % (u, x, u), setup="%s++;" % x, lv="%s->m[2]" % x)
        d["can"] = [("g%s[1].a" % u, 90), ("g%s[1].b" % u, cfg.conv(91, "char")), ("g%s[0].m[2]" % u, cv[2]), ("g%s[1].m[1]" % u, cv[4])]
    elif kind == "lsa":
        d.update(glob="struct S%s{%s m;char b;};" % (u, ct), decl="struct S%s %s[3];int i%d=1;" % (u, x, i),
                 setup="%s[0].m=%s;%s[0].b=7;%s[1].m=%s;%s[1].b=8;%s[2].m=%s;" % (x, c[0], x, x, n, x, x, c[2]), lv="%s[i%d].m" % (x, i))
        d["can"] = [(x + "[0].m", cv[0]), (x + "[0].b", 7), (x + "[1].b", 8), (x + "[2].m", cv[2])]
    elif kind == "far":
        # around a 64 KB boundary of the address space, often unaligned
        ofs = 12 * ((4 * k + i) % 160) - 960 + (k * 5 + i * 3) % 4
        d.update(decl="%s*%s=(%s*)(FB()+%d);" % (ct, x, ct, ofs), lv="*" + x,
                 setup="((char*)%s)[-1]=33;((char*)%s)[%d]=44;*%s=%s;" % (x, x, cfg.size(t), x, n))
        d["can"] = [("((char*)%s)[-1]" % x, 33), ("((char*)%s)[%d]" % (x, cfg.size(t)), 44)]
    elif kind == "bp":
        # behind a byte pointer computed at run time
        d.update(decl="%s y%d=%s;char*z%d=(char*)&y%d;" % (ct, i, n, i, i), lv="*(%s*)z%d" % (ct, i))
    else:
        raise KeyError(kind)
    return d


LV_COST = {"ga": 3, "la": 3, "gav": 4, "lav": 4, "gs": 3, "ls": 3, "ps": 4, "pss": 6, "pd": 2, "pi": 4, "pn": 5, "pp": 3, "u": 3, "a2": 10, "sa": 7,
           "psa": 9, "lsa": 8, "bp": 4, "far": 3}


def weight(e, vs):
    """Estimate of the number of entries the compiler's expression stack needs."""
    k = e[0]
    if k == "v":
        return LV_COST.get(vs[e[1]][1], 2)
    w = 2 + sum(weight(c, vs) for c in children(e))
    if k == "asg":
        w += LV_COST.get(vs[e[2]][1], 2)
    elif k == "inc":
        w += LV_COST.get(vs[e[3]][1], 2)
    elif k in ("cond", "call"):
        w += 3
    return w


CONTEXTS = ["val", "val", "asg", "if", "ifn", "while", "ret", "arg", "idx", "switch", "init", "stmt", "for", "dow"]


def gen_item(rng, cfg, maxsize=14, const=False):
    nv = 0 if const else rng.choice([1, 2, 2, 3, 3, 4])
    vs = []
    for _ in range(nv):
        t = rng.choice(cfg.types)
        vs.append([t, rng.choice(STORES) if not cfg.far or rng.random() < 0.7 else "far", edge_value(rng, cfg, t)])
    size = rng.randrange(2, maxsize)
    while True:
        e = gen_expr(rng, cfg, [[v[0], v[2]] for v in vs], size, const)
        if weight(e, vs) <= 60:     # the compiler documents a bound on the size of one expression
            break
        size = max(1, size - 2)
    ctx = rng.choice(CONTEXTS)
    return {"vars": vs, "expr": e, "ctx": ctx, "ct": rng.choice(cfg.types), "salt": rng.randrange(1, 1000) if rng.random() < .5 else 0}


CCONTEXTS = ["ginit", "ginit", "sinit", "linit", "garr", "gstruct", "dim", "ldim", "enum", "enum", "case", "case", "ptr", "szarr", "tern", "while", "for", "dow",
             "if", "land", "lor", "mixr", "mixl", "mixr", "mixl", "ret", "arg", "gtern", "asgop"]


def gen_const_item(rng, cfg, maxsize=14):
    size = rng.randrange(2, maxsize)
    while True:
        e = gen_expr(rng, cfg, [], size, True)
        if weight(e, []) <= 60:
            break
        size = max(1, size - 2)
    it = {"vars": [], "expr": e, "ctx": "c:" + rng.choice(CCONTEXTS), "ct": rng.choice(cfg.types), "salt": rng.randrange(1, 1000) if rng.random() < .5 else 0}
    if it["ctx"] in ("c:mixr", "c:mixl", "c:asgop", "c:land", "c:lor"):
        t = rng.choice(cfg.types)
        it["var"] = [t, rng.choice(["g", "l", "p", "pd"]), edge_value(rng, cfg, t)]
        it["op"] = rng.choice(ARITH + ARITH + REL)
    return it


def render_const(cfg, item, k):
    ctx = item["ctx"][2:]
    val, t, _, _ = ev(cfg, item["expr"], [])
    E = render(item["expr"], [], 0, item.get("salt", 0))
    ct = item["ct"]
    CT = CNAMES[ct]
    mask = (1 << (8 * cfg.isz)) - 1
    w = lambda x: x & mask
    cv = w(cfg.conv(val, ct))
    fn = "void f%d(void){%%s}\n" % k
    call = "f%d();" % k
    if ctx == "ginit":
        return "%s g%d=%s;\n" % (CT, k, E) + fn % ("out(g%d);" % k), call, [cv]
    if ctx == "sinit":
        return fn % ("static %s g=%s;out(g);" % (CT, E)), call, [cv]
    if ctx == "linit":
        return fn % ("%s g=%s;out(g);" % (CT, E)), call, [cv]
    if ctx == "garr":
        return "%s g%d[]={1,%s,2};\n" % (CT, k, E) + fn % ("out(g%d[0]);out(g%d[1]);out(g%d[2]);out(sizeof g%d/sizeof g%d[0]);" % ((k,) * 5)), call, [1, cv, 2, 3]
    if ctx == "gstruct":
        return "struct T%d{char a;%s m;char b;}g%d={1,%s,2};\n" % (k, CT, k, E) + fn % ("out(g%d.a);out(g%d.m);out(g%d.b);" % ((k,) * 3)), call, [1, cv, 2]
    if ctx == "dim":
        return "char g%d[((%s)&0xff)+1];\n" % (k, E) + fn % ("out(sizeof g%d);" % k), call, [(val & 0xff) + 1]
    if ctx == "ldim":
        return fn % ("short g[3][((%s)&63)+1];out(sizeof g);" % E), call, [6 * ((val & 63) + 1)]
    if ctx == "enum":
        lo, hi = cfg.rng("int")
        if not lo <= val < hi:
            E, val = "(int)(%s)" % E, cfg.conv(val, "int")
            if val == hi:
                E, val = "(%s)-1" % E, val - 1
        return "enum E%d{q%d=%s,r%d};\n" % (k, k, E, k) + fn % ("out(q%d);out(r%d);" % (k, k)), call, [w(val), w(val + 1)]
    if ctx == "case":
        # the label is converted to the promoted type of the controlling expression
        pt = cfg.promote(ct)
        v = cfg.conv(val, pt)
        o = [x for x in (cfg.conv(v + 1, pt), cfg.conv(v - 1, pt)) if x != v]
        return ("void f%d(%s v){switch(v){case %s:out(7);break;%sdefault:out(8);}}\n"
                % (k, CNAMES[pt], E, "case %s:out(9);" % num(cfg, o[0])),
                "".join("f%d(%s);" % (k, num(cfg, x)) for x in [v] + o),
                [7] + sum([[9, 8] if x == o[0] else [8] for x in o], []))
    if ctx == "ptr":
        return "%s a%d[9];%s*g%d=a%d+((%s)&7);%s*k%d=&a%d[(%s)&7];\n" % (CT, k, CT, k, k, E, CT, k, k, E) + fn % ("out(g%d-a%d);out(k%d-a%d);" % ((k,) * 4)), call, [val & 7] * 2
    if ctx == "szarr":
        return fn % ("out(sizeof(int[((%s)&63)+1]));" % E), call, [cfg.isz * ((val & 63) + 1)]
    if ctx == "tern":
        return fn % ("out((%s)?11:22);" % E), call, [11 if val else 22]
    if ctx == "gtern":
        return "int g%d=(%s)?11:22;\n" % (k, E) + fn % ("out(g%d);" % k), call, [11 if val else 22]
    if ctx == "while":
        return fn % ("while(%s){out(1);break;}out(5);" % E), call, [1, 5] if val else [5]
    if ctx == "for":
        return fn % ("for(;%s;){out(1);break;}out(5);" % E), call, [1, 5] if val else [5]
    if ctx == "dow":
        return fn % ("int q=0;do{out(q);if(q++)break;}while(%s);out(5);" % E), call, [0, 1, 5] if val else [0, 5]
    if ctx == "if":
        return fn % ("if(%s)out(1);else out(2);if(!(%s))out(3);" % (E, E)), call, [1] if val else [2, 3]
    if ctx == "ret":
        return "%s f%d(void){return %s;}\n" % (CT, k, E), "out(f%d());" % k, [cv]
    if ctx == "arg":
        return "void a%d(int p,%s q,int r){out(p);out(q);out(r);}\n" % (k, CT) + fn % ("a%d(9,%s,8);" % (k, E)), call, [9, cv, 8]
    # with a run-time variable
    vt, vk, vv = item["var"]
    st = storage(cfg, vk, k, 0, vt, vv)
    head = "%s\nvoid f%d(%s){%s%s" % (st["glob"], k, st["param"] or "void", st["decl"], st["setup"])
    call = "f%d(%s);" % (k, st["arg"] or "")
    op = item["op"]
    if ctx in ("land", "lor"):
        o = "&&" if ctx == "land" else "||"
        a = (bool(val) and bool(vv)) if ctx == "land" else (bool(val) or bool(vv))
        return head + "out(%s %s (%s));out((%s) %s %s);if(%s %s (%s))out(1);else out(2);}\n" % (st["lv"], o, E, E, o, st["lv"], st["lv"], o, E), call, [int(a), int(a), 1 if a else 2]
    if ctx == "asgop":
        if op in REL:
            op = "+"
        r, _ = binop(cfg, op, vv, vt, val, t)
        r = cfg.conv(r, vt)
        return head + "out(%s %s= %s);out(%s);}\n" % (st["lv"], op, E, st["lv"]), call, [w(r), w(r)]
    if ctx == "mixr":
        r, _ = binop(cfg, op, vv, vt, val, t)
        return head + "out(%s %s (%s));}\n" % (st["lv"], op, E), call, [w(r)]
    r, _ = binop(cfg, op, val, t, vv, vt)
    return head + "out((%s) %s %s);}\n" % (E, op, st["lv"]), call, [w(r)]


def render_item(cfg, item, k):
    """-> (C text, call statement, expected words)."""
    if item["ctx"].startswith("c:"):
        return render_const(cfg, item, k)
    st = [storage(cfg, v[1], k, i, v[0], v[2]) for i, v in enumerate(item["vars"])]
    lv = [s["lv"] for s in st]
    env = [[v[0], v[2]] for v in item["vars"]]
    val, t, _, mods = ev(cfg, item["expr"], env)
    E = render(item["expr"], lv, 0, item.get("salt", 0))
    mask = (1 << (8 * cfg.isz)) - 1
    exp, body, pre = [], "", ""
    ct, ctx = item["ct"], item["ctx"]
    CT = CNAMES[ct]
    comma = item["expr"][0] == "bin" and item["expr"][1] == ","
    P = "(%s)" % E if comma else E
    w = lambda x: x & mask
    if ctx == "val":
        body = "out(%s);" % P
        exp = [w(val)]
    elif ctx == "asg":
        body = "%s r;r=%s;out(r);" % (CT, P)
        exp = [w(cfg.conv(val, ct))]
    elif ctx == "init":
        body = "%s r=%s;out(r);" % (CT, P)
        exp = [w(cfg.conv(val, ct))]
    elif ctx == "if":
        body = "if(%s)out(1);else out(2);" % E
        exp = [1 if val else 2]
    elif ctx == "ifn":
        body = "if(!(%s))out(1);out(3);" % E
        exp = [3] if val else [1, 3]
    elif ctx == "while":
        body = "while(%s){out(1);break;}out(5);" % E
        exp = [1, 5] if val else [5]
    elif ctx == "for":
        body = "int q;for(q=0;q<2;q++)out(q);for(;%s;){out(1);break;}out(5);" % E
        exp = [0, 1] + ([1, 5] if val else [5])
    elif ctx == "dow":
        body = "int q=0;do{out(q);if(q++)break;}while(%s);out(5);" % E
        # the expression runs once after the first round and the loop ends in the second
        exp = [0, 1, 5] if val else [0, 5]
    elif ctx == "idx":
        body = "static int q[4]={11,22,33,44};out(q[(%s)&3]);" % E
        exp = [[11, 22, 33, 44][val & 3]]
    elif ctx == "arg":
        pre = "void a%d(int p,%s q,int r){out(p);out(q);out(r);}\n" % (k, CT)
        body = "a%d(9,%s,8);" % (k, P)
        exp = [9, w(cfg.conv(val, ct)), 8]
    elif ctx == "switch":
        pv = cfg.conv(val, cfg.promote(t))
        lo, hi = cfg.rng(cfg.promote(t))
        labels = sorted({x for x in (pv, pv + 1, pv - 1, 0, 1) if lo <= x <= hi})
        if item["salt"] % 5 == 0 and pv in labels:
            labels.remove(pv)
        body = "switch(%s){" % E
        for j, x in enumerate(labels):
            body += "case %s:out(%d);%s" % (num(cfg, x), 100 + j, "break;" if j % 3 != 1 else "")
        body += "default:out(99);}"
        exp = []
        if pv in labels:
            j = labels.index(pv)
            while True:
                if j == len(labels):
                    exp.append(99)
                    break
                exp.append(100 + j)
                if j % 3 != 1:
                    break
                j += 1
        else:
            exp = [99]
    elif ctx == "ret":
        pass
    elif ctx == "stmt":
        body = E + ";"
    else:
        raise KeyError(ctx)
    # loops that stop after one round evaluate the expression once: fine; "for"/"while" when true break at once
    params = [s["param"] for s in st if s["param"]]
    args = [s["arg"] for s in st if s["param"]]
    decl = "".join(s["decl"] for s in st) + "".join(s["setup"] for s in st)
    outs = "".join("out(%s);" % l for l in lv)
    cans = "".join("out(%s);" % c for s in st for c, _ in s["can"])
    fin = [w(x[1]) for x in env] + [w(c) for s in st for _, c in s["can"]]
    glob = "\n".join(s["glob"] for s in st if s["glob"])
    plist = ",".join(params) or "void"
    if ctx == "ret":
        src = "%s\n%s f%d(%s){%sreturn %s;}\n" % (glob, CT, k, plist, decl, E)
        return src, "out(f%d(%s));" % (k, ",".join(args)), [w(cfg.conv(val, ct))]
    # mixed declarations and statements are allowed; keep the block shape simple
    src = "%s\n%svoid f%d(%s){%s{%s}%s%s}\n" % (glob, pre, k, plist, decl, body, outs, cans)
    return src, "f%d(%s);" % (k, ",".join(args)), exp + fin


def program(cfg, items, sep=0xEE):
    src = ["void out(unsigned);\n", helper_src(cfg)]
    if cfg.far:
        src.append("char F[140000];\nchar*FB(void){return (char*)(((unsigned)F+0x10000u)&0xffff0000u);}\n")
    calls, exp = [], []
    for k, it in enumerate(items):
        s, c, x = render_item(cfg, it, k)
        src.append(s)
        calls.append("out(%d);%s" % (sep, c))
        exp.append([sep] + x)
    src.append("int main(void){\n" + "\n".join(calls) + "\nreturn 0;}\n")
    return "".join(src), exp


def first_bad(exp, got):
    """Index of the first item whose words differ, or None."""
    pos = 0
    for k, x in enumerate(exp):
        if got[pos:pos + len(x)] != x:
            return k, x, got[pos:pos + len(x) + 4]
        pos += len(x)
    if len(got) != pos:
        return len(exp) - 1, [], got[pos:pos + 8]
    return None


def item_candidates(cfg, item):
    """Smaller items (may be undefined: the caller catches UB)."""
    for e in simpler(cfg, item["expr"]):
        yield {**item, "expr": e}
    if item["ctx"] != "val" and not item["ctx"].startswith("c:"):
        yield {**item, "ctx": "val"}
    if item["salt"]:
        yield {**item, "salt": 0}
    used = set()

    def walk(e):
        if e[0] == "v":
            used.add(e[1])
        elif e[0] == "asg":
            used.add(e[2])
        elif e[0] == "inc":
            used.add(e[3])
        for c in children(e):
            walk(c)
    walk(item["expr"])
    n = len(item["vars"])
    while n and n - 1 not in used:
        n -= 1
    if n < len(item["vars"]):
        yield {**item, "vars": item["vars"][:n]}
    for i, v in enumerate(item["vars"]):
        if v[1] != "l":
            vs = [x[:] for x in item["vars"]]
            vs[i][1] = "l"
            yield {**item, "vars": vs}
