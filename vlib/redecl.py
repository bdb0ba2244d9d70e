"""Generated pairs of declarations of one name: types that differ in one place, and types that do not."""
import copy, random

BASES = ["int", "unsigned", "char", "signed char", "unsigned char", "struct zS", "struct zT", "union zU"]


def gen_type(r, wide, depth, fn_ok=True):
    """["b", name] | ["p", t] | ["a", n, t] | ["f", [params], variadic, t]"""
    k = r.random()
    if depth <= 0 or k < 0.2:
        return ["b", r.choice(BASES + (["short", "unsigned short", "float"] if wide else []))]
    if k < 0.5:
        t = gen_type(r, wide, depth - 1)
        return ["p", t]
    if k < 0.8 or not fn_ok:
        t = gen_type(r, wide, depth - 1, False)
        return ["a", r.randint(1, 5), t]
    t = gen_type(r, wide, depth - 1, False)
    while t[0] == "a":
        t = t[2]
    return ["f", [param(r, wide, depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))], False, t]


def param(r, wide, depth):
    t = gen_type(r, wide, depth)
    return ["p", t] if t[0] in "af" else t


def show(r, t, d):
    """A declaration of d (text) with type t."""
    if t[0] == "b":
        n = "zTy" if t[1] == "int" and r.random() < 0.2 else t[1]
        return n + " " + d
    if t[0] == "p":
        return show(r, t[1], "(*%s)" % d if t[1][0] in "af" else "*" + d)
    if t[0] == "a":
        return show(r, t[2], "%s[%s]" % (d, t[1] if t[1] else ""))
    ps = [show(r, p, "zq%d" % i if r.random() < 0.5 else "").rstrip() for i, p in enumerate(t[1])] + (["..."] if t[2] else [])
    return show(r, t[3], "%s(%s)" % (d, ", ".join(ps) or "void"))


def places(t, path=()):
    """All subtrees as (path, kind of parent)."""
    yield path, t
    if t[0] == "p":
        yield from places(t[1], path + (1,))
    elif t[0] == "a":
        yield from places(t[2], path + (2,))
    elif t[0] == "f":
        for i, p in enumerate(t[1]):
            yield from places(p, path + (1, i))
        yield from places(t[3], path + (3,))


def put(t, path, v):
    if not path:
        return v
    t = copy.deepcopy(t)
    x = t
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v
    return t


def ok(t, top=True):
    """Well-formed: no array of functions, no function returning a function or array, no parameter of such a type."""
    if t[0] == "b":
        return True
    if t[0] == "p":
        return ok(t[1])
    if t[0] == "a":
        return t[2][0] != "f" and ok(t[2])
    return t[3][0] not in "af" and ok(t[3]) and all(p[0] not in "af" and ok(p) for p in t[1])


def mutate(r, t, wide):
    for _ in range(100):
        path, x = r.choice(list(places(t)))
        if x[0] == "b":
            v = r.choice([["b", r.choice(BASES)], ["b", r.choice(BASES)], ["p", x]])
        elif x[0] == "p":
            v = r.choice([x[1], ["p", x], ["a", r.randint(1, 5), x[1]]])
        elif x[0] == "a":
            v = r.choice([["a", x[1] + r.choice([-1, 1, 10]), x[2]]] * 3 + [["p", x[2]], ["a", x[1], ["a", r.randint(1, 5), x[2]]], x[2]])
            if v[0] == "a" and v[1] < 1:
                continue
        else:
            ps = list(x[1])
            q = r.random()
            if q < 0.4 or not ps:
                ps.insert(r.randint(0, len(ps)), param(r, wide, 1))
                v = ["f", ps, x[2], x[3]]
            elif q < 0.7:
                ps.pop(r.randrange(len(ps)))
                v = ["f", ps, x[2], x[3]]
            else:
                v = ["f", ps, not x[2], x[3]]
        n = put(t, path, v)
        if n != t and ok(n):
            return n
    return None


def pair(seed, wide):
    """-> (bad, good, whether it goes to a function's body)"""
    r = random.Random(seed)
    while True:
        t = gen_type(r, wide, r.choice([1, 2, 3, 4]))
        u = mutate(r, t, wide)
        if u is None or not ok(t):
            continue
        if r.random() < 0.5:
            t, u = u, t
        break
    body = r.random() < 0.3
    sa, sb = r.choice([("extern ", ""), ("extern ", "extern "), ("", "extern ")])
    if body:
        sa = sb = "extern "
    elif t[0] == "f" and u[0] == "f":
        sa, sb = r.choice(["", "extern "]), r.choice(["", "extern "])
    two = r.random() < 0.5                      # the second one inside a block
    a = show(r, t, "zg") + ";"
    g = copy.deepcopy(t)
    if g[0] == "a" and (sb or body) and r.random() < 0.3:
        g[1] = 0                                # an incomplete type is compatible with it
    if body or two:
        sb = "extern "
        if g[0] == "a" and g[1] == 0 and r.random() < 0.5:
            g[1] = t[1]
    bad, good = show(r, u, "zg") + ";", show(r, g, "zg") + ";"
    if not body and two:
        w = r.choice(["void zh(void) {\n%s\n}", "void zh(void) {\n{\nint zo;\n%s\n}\n}"])
        return "%s%s\n" % (sa, a) + w % (sb + bad), "%s%s\n" % (sa, a) + w % (sb + good), False
    return "%s%s\n%s%s" % (sa, a, sb, bad), "%s%s\n%s%s" % (sa, a, sb, good), body
