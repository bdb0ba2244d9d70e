"""A reference macro expander (Prosser's algorithm from the C standard's
rationale) and a preprocessing-token scanner."""
import re

TOK = re.compile(r"""
  (?P<ws>(?:\s|/\*.*?\*/|//[^\n]*)+)
 |(?P<chr>L?'(?:[^'\\\n]|\\.)*')
 |(?P<str>L?"(?:[^"\\\n]|\\.)*")
 |(?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])*)
 |(?P<id>[A-Za-z_][A-Za-z_0-9]*)
 |(?P<op>%:%:|\.\.\.|<<=|>>=|\#\#|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\*=|/=|%=|\+=|-=|&=|\^=|\|=|<:|:>|<%|%>|%:|.)
""", re.X | re.S)


class UB(Exception):
    """The standard leaves this undefined (or invalid)."""


class T:
    __slots__ = ("s", "k", "w", "h", "org")

    def __init__(self, s, k, w=False, h=frozenset(), org=0):
        self.s, self.k, self.w, self.h, self.org = s, k, w, h, org

    def copy(self, **kw):
        t = T(self.s, self.k, self.w, self.h, self.org)
        for a, b in kw.items():
            setattr(t, a, b)
        return t

    def __repr__(self):
        return self.s


def lex(text):
    out, w = [], False
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k == "ws":
            w = True
            continue
        out.append(T(m.group(), k, w))
        w = False
    return out


def spell(text):
    return [t.s for t in lex(text)]


class Macro:
    def __init__(self, name, params, va, body):
        self.name, self.params, self.va, self.body = name, params, va, body   # params None: object-like

    def index(self, t):
        if self.params is None or t.k != "id":
            return -1
        if t.s in self.params:
            return self.params.index(t.s)
        if self.va and t.s == "__VA_ARGS__":
            return len(self.params)
        return -1


PLACE = "\0"


class Expander:
    """expand() follows Prosser.  `nested` is set when the result depends on
    what the standard leaves unspecified: a name found in a replacement whose
    argument list extends past the end of that replacement."""

    def __init__(self, macros):
        self.m = macros
        self.steps = 0
        self.unspec = False
        self.calls = 0

    def expand(self, ts, top=True):
        out = []
        ts = list(ts)
        while ts:
            self.steps += 1
            if self.steps > 3000 or len(ts) + len(out) > 3000:
                raise UB("size")
            t = ts[0]
            m = self.m.get(t.s) if t.k == "id" else None
            if m is None or t.s in t.h:
                out.append(t)
                del ts[0]
                continue
            if m.params is None:
                self.calls += 1
                hs = t.h | {t.s}
                r = self.subst(m, [], hs, t.w)
                ts[0:1] = r
                continue
            if len(ts) < 2 or ts[1].s != "(" or ts[1].k != "op":
                out.append(t)
                del ts[0]
                continue
            args, cur, depth, i = [], [], 0, 1
            np = len(m.params)
            while True:
                if i >= len(ts):
                    raise UB("unterminated call")
                x = ts[i]
                if x.k == "op" and x.s == "(":
                    depth += 1
                    if depth > 1:
                        cur.append(x)
                elif x.k == "op" and x.s == ")":
                    depth -= 1
                    if depth == 0:
                        break
                    cur.append(x)
                elif x.k == "op" and x.s == "," and depth == 1 and not (m.va and len(args) >= np):
                    args.append(cur)
                    cur = []
                else:
                    cur.append(x)
                i += 1
            rp = ts[i]
            args.append(cur)
            if np == 0 and not m.va:
                if len(args) != 1 or args[0]:
                    raise UB("arguments")
                args = []
            elif len(args) != np + (1 if m.va else 0):
                raise UB("arguments")
            self.calls += 1
            if t.h != rp.h and (t.h ^ rp.h) != frozenset():
                self.unspec = True
            hs = (t.h & rp.h) | {t.s}
            r = self.subst(m, args, hs, t.w)
            ts[0:i + 1] = r
        return out

    def subst(self, m, args, hs, w):
        b, out, i = m.body, [], 0
        exp = {}

        def full(k):
            if k not in exp:
                exp[k] = self.expand([a.copy() for a in args[k]], False)
            return [a.copy() for a in exp[k]]

        def put(seq, w):
            seq = [x.copy() for x in seq]
            if seq:
                seq[0].w = w
            out.extend(seq)

        while i < len(b):
            t = b[i]
            if t.s == "#" and t.k == "op" and m.params is not None:
                k = m.index(b[i + 1])
                out.append(T(self.stringify(args[k]), "str", t.w))
                i += 2
                continue
            if t.s == "##" and t.k == "op" and i > 0:
                n = b[i + 1]
                k = m.index(n)
                if k >= 0:
                    r = [a.copy() for a in args[k]] or [T(PLACE, "op")]
                elif n.s == "#" and n.k == "op" and m.params is not None:
                    k = m.index(b[i + 2])
                    r = [T(self.stringify(args[k]), "str")]
                    i += 1
                else:
                    r = [n.copy()]
                l = out.pop()
                j = self.paste(l, r[0])
                out.append(j)
                out.extend(r[1:])
                i += 2
                continue
            k = m.index(t)
            if k >= 0:
                if i + 1 < len(b) and b[i + 1].s == "##" and b[i + 1].k == "op":
                    a = [x.copy() for x in args[k]] or [T(PLACE, "op")]
                    put(a, t.w)
                else:
                    put(full(k), t.w)
                i += 1
                continue
            out.append(t.copy())
            i += 1
        out = [x for x in out if x.s != PLACE]
        if out:
            out[0].w = w
        for x in out:
            x.h = x.h | hs
        return out

    def paste(self, l, r):
        if l.s == PLACE:
            return r.copy(w=l.w)
        if r.s == PLACE:
            return l
        s = l.s + r.s
        x = lex(s)
        if len(x) != 1 or x[0].s != s or s in ("//", "/*") or (x[0].k == "op" and s in ("'", '"')):
            raise UB("paste")
        return T(s, x[0].k, l.w, l.h & r.h)

    def stringify(self, arg):
        s = ""
        for n, t in enumerate(arg):
            if n and t.w:
                s += " "
            s += t.s.replace("\\", "\\\\").replace('"', '\\"') if t.k in ("str", "chr") else t.s
            if t.s == "\\":
                raise UB("stringify")
        return '"' + s + '"'
