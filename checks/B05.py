"""B05: <string.h> and <ctype.h> against models on byte arrays."""
from vlib import libcheck
from vlib.srv import A

ID = "B05"
QUICK = (900, 40)
THOROUGH = (20000, 700)
TECHNIQUE = "property-based testing: generated call sequences over an arena between unmapped pages, against executable models"
LEVEL_NOTE = "Random buffers, alignments, lengths, overlaps; every byte of the arena window compared after each call; reads beyond the last page fault on Linux; samples on Windows, macOS and DPMI (under a stand-in loader) and DOS huge/unreal/small."
RULE = "Each evaluation is one call sequence on one prepared buffer. Non-trivial: the buffer is not empty; distinct by buffer and calls."
ASSUMPTIONS = ["C locale"]
PER_CASE = 120
SIZE = 65536

CT = {"isalnum": lambda c: 48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123, "isalpha": lambda c: 65 <= c < 91 or 97 <= c < 123, "isblank": lambda c: c in (32, 9),
      "iscntrl": lambda c: 0 <= c < 32 or c == 127, "isdigit": lambda c: 48 <= c < 58, "isgraph": lambda c: 33 <= c < 127, "islower": lambda c: 97 <= c < 123,
      "isprint": lambda c: 32 <= c < 127, "ispunct": lambda c: 33 <= c < 127 and not (48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123), "isspace": lambda c: c == 32 or 9 <= c < 14,
      "isupper": lambda c: 65 <= c < 91, "isxdigit": lambda c: 48 <= c < 58 or 65 <= c < 71 or 97 <= c < 103,
      "tolower": lambda c: c + 32 if 65 <= c < 91 else c, "toupper": lambda c: c - 32 if 97 <= c < 123 else c}
FNS = ("memchr memcmp memcpy memmove memset strcat strchr strcmp strcoll strcpy strcspn strlen strncat strncmp strncpy strpbrk strrchr strspn strstr strtok strxfrm "
       "memcmp memmove memcpy strstr strncmp strncpy strncat").split()


def gen_item(rng, b16):
    n = rng.choice([8, 16, 24, 40, 64, 100, rng.randrange(4, 200), 600 if rng.random() < 0.2 else 30])
    if b16:
        n = min(n, 200)
    size = 4096 if b16 else SIZE
    base = size - n if rng.random() < 0.5 else 512 + rng.randrange(16)
    mode = rng.randrange(4)
    al = [[97, 98, 0], [97, 98, 99, 255, 128, 0], list(range(256)), [97, 97, 97, 98]][mode]
    mem = [rng.choice(al) for _ in range(n)]
    if rng.random() < 0.5:
        mem = [rng.choice(al[:2]) if x == 0 else x for x in mem]
    for _ in range(rng.randrange(1, 5)):
        mem[rng.randrange(n)] = 0
    if rng.random() < 0.7:
        mem[n - 1] = 0
    if rng.random() < 0.3:      # repeat a piece, so that comparisons and searches get far
        a, b, l = rng.randrange(n), rng.randrange(n), rng.randrange(n)
        for i in range(min(l, n - max(a, b))):
            mem[a + i] = mem[b + i]
    it = {"n": n, "base": base, "mem": mem, "calls": []}
    m = Model(mem)
    for _ in range(rng.randrange(1, 5)):
        for _ in range(10):
            if rng.random() < 0.15:
                c = [rng.choice(list(CT)), rng.randrange(-1, 256)]
            else:
                c = [rng.choice(FNS)] + [rng.randrange(n) for _ in range(2)] + [rng.choice([rng.randrange(n + 1), rng.randrange(4), n]), rng.choice([0, rng.choice(al), rng.randrange(256)]) + rng.choice([0, 0, 256, -256])]
                if c[0] == "strtok" and m.tok is not None and rng.random() < 0.7:
                    c[1] = -1
            save = (bytearray(m.m), m.tok)
            if m.call(c) is not None:
                it["calls"].append(c)
                break
            m.m, m.tok = save
    return it


class Model:
    """call(c) -> (kind, value) or None if the call would be undefined. kind: p pointer offset, i int, s sign, b truth, v nothing."""

    def __init__(self, mem):
        self.m, self.tok = bytearray(mem), None

    def s(self, a):
        """Offset of the terminator of the string at a, or None."""
        e = self.m.find(0, a)
        return None if e < 0 else e

    def call(self, c):
        f, m = c[0], self.m
        if f in CT:
            r = CT[f](c[1])
            return ("i", r) if f[0] == "t" else ("b", bool(r))
        _, a, b, n, ch = c
        L = len(m)
        ch &= 255
        if f[:3] == "mem":
            if a + n > L or f in ("memcmp", "memcpy", "memmove") and b + n > L:
                return None
            if f == "memchr":
                k = m.find(bytes([ch]), a, a + n)
                return ("p", k if k >= 0 else None)
            if f == "memcmp":
                return ("s", (m[a:a + n] > m[b:b + n]) - (m[a:a + n] < m[b:b + n]))
            if f == "memset":
                m[a:a + n] = bytes([ch]) * n
                return ("p", a)
            if f == "memcpy" and a < b + n and b < a + n:
                return None
            m[a:a + n] = bytes(m[b:b + n])
            return ("p", a)
        if f == "strtok":
            d = self.s(b)
            if d is None:
                return None
            delim = set(m[b:d])
            p = a if a >= 0 else self.tok
            if p is None:
                return None
            if a < 0 and p < 0:
                # the string was used up: no more tokens, unless it was lengthened since (not settled)
                return None if m[-1 - p] else ("p", None)
            e = self.s(p)
            # the delimiters must not overlap what strtok changes
            if e is None or (b <= e and p <= d):
                return None
            while p < e and m[p] in delim:
                p += 1
            if p == e:
                self.tok = -1 - e
                return ("p", None)
            q = p
            while q < e and m[q] not in delim:
                q += 1
            if q < e:
                m[q] = 0
                self.tok = q + 1
            else:
                self.tok = -1 - e
            return ("p", p)
        if f in ("strncmp", "strncpy", "strncat", "strxfrm"):
            # the source may be unterminated within n
            e = m.find(0, b, b + n)
            if f == "strxfrm":
                e = self.s(b)
                if e is None:
                    return None
                l = e - b
                if n > l:
                    if a + l + 1 > L or a < e + 1 and b < a + l + 1:
                        return None
                    m[a:a + l + 1] = m[b:e + 1]
                elif n:
                    return None      # contents unspecified
                return ("i", l)
            l = (e - b) if e >= 0 else n
            if e < 0 and b + n > L:
                return None
            if f == "strncmp":
                ea = m.find(0, a, a + n)
                if ea < 0 and a + n > L:
                    # fine if a difference comes first
                    return None
                x, y = bytes(m[a:a + n]).split(b"\0")[0], bytes(m[b:b + n]).split(b"\0")[0]
                return ("s", (x > y) - (x < y))
            if f == "strncpy":
                if a + n > L or (a < b + l + 1 and b < a + n):
                    return None
                m[a:a + n] = bytes(m[b:b + l]) + bytes(n - l)
                return ("p", a)
            ea = self.s(a)
            if ea is None or ea + l + 1 > L or (a < b + l + 1 and b < ea + l + 1):
                return None
            m[ea:ea + l + 1] = bytes(m[b:b + l]) + b"\0"
            return ("p", a)
        ea = self.s(a)
        if f in ("strlen", "strchr", "strrchr"):
            if ea is None:
                return None
            if f == "strlen":
                return ("i", ea - a)
            t = m[a:ea + 1]
            k = t.find(bytes([ch])) if f == "strchr" else t.rfind(bytes([ch]))
            return ("p", a + k if k >= 0 else None)
        eb = self.s(b)
        if eb is None:
            return None
        if f in ("strcpy",):
            l = eb - b
            if a + l + 1 > L or (a < eb + 1 and b < a + l + 1):
                return None
            m[a:a + l + 1] = bytes(m[b:eb + 1])
            return ("p", a)
        if ea is None:
            return None
        x, y = bytes(m[a:ea]), bytes(m[b:eb])
        if f == "strcat":
            if ea + len(y) + 1 > L or (a < eb + 1 and b < ea + len(y) + 1):
                return None
            m[ea:ea + len(y) + 1] = y + b"\0"
            return ("p", a)
        if f in ("strcmp", "strcoll"):
            return ("s", (x > y) - (x < y))
        if f == "strstr":
            k = x.find(y)
            return ("p", a + k if k >= 0 else None)
        k = 0
        if f == "strspn":
            while k < len(x) and x[k] in y:
                k += 1
            return ("i", k)
        while k < len(x) and x[k] not in y:
            k += 1
        if f == "strcspn":
            return ("i", k)
        return ("p", a + k if k < len(x) else None)


def args(c, base):
    f = c[0]
    if f in CT:
        return (c[1],)
    _, a, b, n, ch = c
    p, q = A(base + a) if a >= 0 else 0, A(base + b)
    if f in ("memchr", "memset"):
        return (p, ch, n)
    if f in ("strchr", "strrchr"):
        return (p, ch)
    if f == "strlen":
        return (p,)
    if f[:3] == "mem" or f in ("strncmp", "strncpy", "strncat", "strxfrm"):
        return (p, q, n)
    return (p, q)


def emit(it, s):
    base, n = it["base"], it["n"]
    lo = base - 40
    s.fill(lo, 40, 0xA5)
    s.w(base, it["mem"])
    pad = min(40, (65536 if s.mask > 65535 else 4096) - base - n)
    if pad:
        s.fill(base + n, pad, 0x5A)
    h = []
    for c in it["calls"]:
        h.append((s.call(c[0], *args(c, base)), s.d(lo, 40 + n + pad)))
    return (h, pad)


def verify(it, hd, o):
    m = Model(it["mem"])
    h, pad = hd
    for c, (kr, kd) in zip(it["calls"], h):
        r = m.call(c)
        if r is None:
            return None
        t, want = r
        if t == "p":
            got = o.off(kr)
            got = got - it["base"] if got is not None else None
        elif t == "i":
            got = o.i(kr)
        elif t == "s":
            got = (o.i(kr) > 0) - (o.i(kr) < 0)
        else:
            got = o.i(kr) != 0
        if got != want:
            return "%s: expected %s, got %s" % (c, want, got)
        img = b"\xa5" * 40 + bytes(m.m) + b"\x5a" * pad
        if o.d(kd) != img:
            k = next(i for i in range(len(img)) if o.d(kd)[i] != img[i]) - 40
            return "%s: byte %d is %d, expected %d" % (c, k, o.d(kd)[k + 40], img[k + 40])
    return None


def nontrivial(it):
    return it["n"] > 1 and len(it["calls"]) > 0


def kind(it):
    return it["calls"][-1][0] if it["calls"] else "none"


def simpler(it):
    yield from libcheck.simpler_list(it, "calls")


libcheck.bind(globals())
