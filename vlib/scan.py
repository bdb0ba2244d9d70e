"""Reference model of C's scanf conversions (7.21.6.2), including what is undefined (raises UB)."""
from fractions import Fraction
from . import f32


class UB(Exception):
    pass


SPACE = b" \t\n\v\f\r"


def item_int(t, base):
    """Longest prefix of t that is, or is a prefix of, a matching sequence. -> (length, value or None if no match)"""
    i = 0
    neg = False
    if i < len(t) and t[i:i + 1] in (b"+", b"-"):
        neg = t[i:i + 1] == b"-"
        i += 1
    if base in (0, 16) and t[i:i + 1] == b"0" and t[i + 1:i + 2] in (b"x", b"X"):
        j = i + 2
        b = 16
    else:
        j = i
        b = base or (8 if t[i:i + 1] == b"0" else 10)
    k = j
    while k < len(t) and digit(t[k]) < b:
        k += 1
    if k == j:
        return k, None
    v = int(t[j:k], b)
    return k, -v if neg else v


def digit(c):
    if 48 <= c < 58:
        return c - 48
    c |= 32
    return c - 87 if 97 <= c < 123 else 99


def item_float(t):
    i = 0
    neg = 0
    if t[:1] in (b"+", b"-"):
        neg = int(t[:1] == b"-")
        i = 1
    low = t[i:].lower()
    for w in (b"infinity", b"nan"):
        n = 0
        while n < len(w) and n < len(low) and low[n] == w[n]:
            n += 1
        if n:
            if w == b"nan":
                if n == 3:
                    if low[3:4] == b"(":
                        raise UB        # (not explored: nan(n-char-sequence))
                    return i + 3, ("nan",)
                return i + n, None
            if n in (3, 8):
                return i + n, neg << 31 | f32.INF
            return i + n, None
    if low[:2] == b"0x":
        raise UB                        # (hexadecimal floats are outside the library's scope)
    j = i
    while j < len(t) and 48 <= t[j] < 58:
        j += 1
    ip = t[i:j]
    fp = b""
    if t[j:j + 1] == b".":
        k = j + 1
        while k < len(t) and 48 <= t[k] < 58:
            k += 1
        fp = t[j + 1:k]
        j = k
    if not ip and not fp:
        return j, None
    e = 0
    if t[j:j + 1] in (b"e", b"E"):
        k = j + 1
        if t[k:k + 1] in (b"+", b"-"):
            k += 1
        m = k
        while m < len(t) and 48 <= t[m] < 58:
            m += 1
        if m == k:
            return m, None
        e = int(t[j + 1:m])
        j = m
    return j, dec(ip, fp, e, neg)


def dec(ip, fp, e, neg):
    d = int((ip + fp) or b"0")
    if len((ip + fp).lstrip(b"0").rstrip(b"0")) > 110:
        raise UB
    if d == 0:
        return neg << 31
    x = e - len(fp)
    if len(str(d)) + x > 60:
        return neg << 31 | f32.INF
    if len(str(d)) + x < -80:
        return neg << 31
    return f32.rnd((-1 if neg else 1) * Fraction(d) * Fraction(10) ** x)


def scanf(parts, inp):
    """parts: str directive (literal text or white space) or [star, width, lm, conv, set]. -> (ret, stores, pos)
    stores: per non-suppressed conversion (kind, value) or None if not stored."""
    pos, cnt, done = 0, 0, False
    supp = False
    stores = []
    end = False      # input exhausted before the first conversion -> EOF

    def fin(eof):
        if eof and cnt == 0:
            if supp:
                raise UB        # whether a suppressed conversion counts as one differs between editions of the standard
            return -1
        return cnt

    def inside(n, w, pos):
        # Input that ends inside an item is a matching failure in C; the repository's tests/scanf.c
        # prescribes the result EOF (if nothing was converted before), so that is what the model says.
        return pos >= len(inp) and n != w
    for p in parts:
        if isinstance(p, str):
            for ch in p.encode("latin-1"):
                if ch in SPACE:
                    while pos < len(inp) and inp[pos] in SPACE:
                        pos += 1
                    continue
                if pos >= len(inp):
                    return fin(True), stores, pos
                if inp[pos] != ch:
                    return fin(False), stores, pos
                pos += 1
            continue
        star, w, lm, c, st = p
        if c == "n":
            stores.append(("i", pos, size(lm)))
            continue
        if c not in "c[":
            while pos < len(inp) and inp[pos] in SPACE:
                pos += 1
        if pos >= len(inp):
            return fin(True), stores, pos
        if c == "%":
            if inp[pos] != 37:
                return fin(False), stores, pos
            pos += 1
            continue
        t = inp[pos:pos + w] if w else inp[pos:]
        if c == "c":
            n = w or 1
            if len(t[:n]) < n:
                if not star:
                    stores.append(("any", n))
                return fin(True), stores, len(inp)
            pos += n
            val = ("b", t[:n])
        elif c == "s":
            n = 0
            while n < len(t) and t[n] not in SPACE:
                n += 1
            pos += n
            val = ("b", t[:n] + b"\0")
        elif c == "[":
            inv = st[:1] == "^"
            s = st[1:].encode("latin-1") if inv else st.encode("latin-1")
            n = 0
            while n < len(t) and (t[n] in s) != inv:
                n += 1
            if n == 0:
                return fin(False), stores, pos
            pos += n
            val = ("b", t[:n] + b"\0")
        elif c in "efgEG":
            n, v = item_float(t)
            pos += n
            if v is None:
                return fin(inside(n, w, pos) and t[:n].lstrip(b"+-")[:1].lower() not in (b"i", b"n")), stores, pos
            val = ("f", v)
        else:
            base = {"d": 10, "u": 10, "i": 0, "o": 8, "x": 16, "X": 16, "p": 16}[c]
            n, v = item_int(t, base)
            pos += n
            if v is None:
                return fin(inside(n, w, pos)), stores, pos
            sz = size(lm)
            if c in "di":
                if not -(1 << (8 * sz - 1)) <= v < 1 << (8 * sz - 1):
                    raise UB
            elif not (0 <= v < 1 << (8 * sz)) and not (sz == 4 and -(1 << 32) < v < 0):
                raise UB
            val = ("i", v, sz)
        if star:
            supp = True
        else:
            stores.append(val)
            cnt += 1
    return cnt, stores, pos


def size(lm):
    return {"hh": 1, "h": 2}.get(lm, 4)


def fmt(parts):
    o = ""
    for p in parts:
        if isinstance(p, str):
            o += p
        elif p[3] == "%":
            o += "%%"
        else:
            o += "%" + ("*" if p[0] else "") + (str(p[1]) if p[1] else "") + p[2] + p[3] + (p[4] + "]" if p[3] == "[" else "")
    return o.encode("latin-1")
