"""C13: invalid programs are rejected, their valid twins are not."""
import os, re
from vlib import badc, redecl, cprog, exprcheck, progcheck, targets
from vlib.core import run, Infra

ID = "C13"
NEEDS = ("smlrc", "smlrcmips", "smlrpp", "smlrcc")
QUICK = (5000, 25)
THOROUGH = (200000, 500)
TECHNIQUE = "property-based testing: single-violation mutations of valid programs, paired with valid twins"
LEVEL_NOTE = ("About 560 kinds of constraint violation and generated pairs of incompatible redeclarations, each planted at a random place of a random program (nesting, includes, #line) with its valid twin as control; "
              "single-bracket and single-identifier mutations of generated programs. Only constraints this compiler checks are in scope.")
RULE = ("Each evaluation is one program with exactly one violation: exit status 1 and a message naming the file and a line at the violation are required, and the valid twin has to compile. "
        "Every evaluation is non-trivial; distinct by program text.")
ASSUMPTIONS = ["a violation is reported on its line or the next token's line; label and end-of-file violations up to the end of the function or file"]

PRE = set(re.findall(r"\bz\w+", badc.PRELUDE + badc.PRELUDE_F))
FLAGS = {"linux": ["-seg32"], "tiny": ["-seg16"], "huge": ["-huge"], "unreal": ["-unreal"], "mips": [], "pp": ["-seg32"]}
WIDE = ("linux", "huge", "unreal", "pp")
LATE = {"{", "int zg", "};", "/* ", "int zg(void) { return 1;", "#ifdef zz", "#ifndef zz", "/*"}
ECTX = ["(%s);", "zi, (%s);", "z1(((%s), 1));", "za[((%s), 1)];", "(zi ? ((%s), 1) : 2);", "for ((%s); zi; zi--) ;", "for (; zi; (%s)) ;", "zi = ((%s), 3);", "sizeof((%s));", "if (((%s), zi)) ;",
        "while (((%s), zi)) ;", "switch (((%s), zi)) { }", "int z8 = ((%s), 1);", "zi && ((%s), 1);", "0 || ((%s), 1);", "zi += ((%s), 1);", "!((%s), 1);", "do ; while (((%s), 0));", "if (0) (%s);", "z2(1, ((%s), zcp));",
        "zfp(((%s), 2));", "int z8[2] = { ((%s), 1), 2 };" if False else "zi = (((%s), 3) + 1) * 2;", "*(((%s), zp)) = 1;", "zi ? (%s) : (%s);", "sizeof((%s)) + 1;"]
WRAP = ["if (zi) {\n%s\n}", "if (zi) ;\nelse {\n%s\n}", "{\n%s\n}", "{\nint zy1 = 3;\n%s\n}", "zl1: {\n%s\n}"]
WRAPL = ["while (zi) {\n%s\n}", "for (; zi; zi--) {\n%s\n}", "do {\n%s\n} while (zi);", "switch (zi) {\ncase 1:\n{\n%s\n}\n}", "switch (zi) {\ndefault: {\n%s\n}\ncase 2: ;\n}"]
HEADS = {"v": "void %s(void) {\n", "i": "int %s(int zpa) {\n", "s": "struct zS %s(char zpb, struct zS zpc) {\n"}


def setup(tc):
    pass


def rename(s, k):
    return re.sub(r'(?<![\w"<])z\w*', lambda m: m.group() if m.group() in PRE else m.group() + "_%d" % k, s)


def pools(flt):
    p = {"S": badc.S, "E": badc.E + (badc.EF if flt else []), "F": badc.F, "P": badc.P, "N": badc.S_NOLOOP, "RV": badc.S_VOIDFN, "RI": badc.S_INTFN, "RS": badc.S_STRFN}
    return p


def gen(rng, idx, tier):
    t = rng.choice(["linux"] * 6 + ["tiny", "huge", "unreal", "mips", "pp"])
    r = rng.random()
    if r < 0.2:
        return {"mode": "cut", "target": t if t != "pp" else "linux", "prog": progcheck.gen(rng, "linux", rng.choice([8, 20]))["prog"] if rng.random() < 0.5 else None,
                "units": units(rng, t, rng.randrange(1, 8)), "seed": rng.getrandbits(32), "kind": rng.choice(["del", "del", "ins", "swap"])}
    d = {"mode": "pair" if r < 0.9 else "und", "target": t, "units": units(rng, t, rng.randrange(1, 12)), "seed": rng.getrandbits(32)}
    fr = [i for i, u in enumerate(d["units"])]
    i = rng.choice(fr)
    d["bad"] = [i, rng.randrange(len(d["units"][i]["f"]))]
    return d


def units(rng, t, n):
    res = []
    p = pools(t != "tiny" and t != "mips")
    for _ in range(n):
        r = rng.random()
        if r < 0.08:
            g = rng.getrandbits(40)
            b = redecl.pair(g, t in WIDE)[2]
            res.append({"u": "i", "f": [["G", g, [rng.randrange(len(WRAP) + len(WRAPL)) for _ in range(rng.choice([0, 0, 1, 2]))], 0]]} if b else {"u": "F", "f": [["G", g]]})
        elif r < 0.3:
            res.append({"u": "F", "f": [["F", rng.randrange(len(p["F"]))]]})
        elif r < 0.36:
            res.append({"u": "P", "f": [["P", rng.randrange(len(p["P"]))]]})
        else:
            k = rng.choice("viis")
            fs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                q = rng.choice(["S", "S", "S", "E", "E", "E", "N", "R"])
                nest = [rng.randrange(len(WRAP) + len(WRAPL)) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
                if q == "R":
                    q = "R" + k.upper()
                elif q == "N":
                    nest = [x % len(WRAP) for x in nest]
                fs.append([q, rng.randrange(len(p[q])), nest, rng.randrange(len(ECTX))])
            res.append({"u": k, "f": fs})
    return res


def frag(p, f, bad, t):
    if f[0] == "G":
        return redecl.pair(f[1], t in WIDE)[0 if bad else 1]
    s = p[f[0]][f[1]][0 if bad else 1]
    if f[0] == "E":
        c = ECTX[f[3]]
        s = c.replace("%s", s)
    return s


MARK = "\x01%d\x02"


def text(data, bad):
    """-> (lines, first bad line index, last allowed line index); lines are file-scope safe at the unit starts."""
    flt = data["target"] not in ("tiny", "mips")
    p = pools(flt)
    out = []
    pre = badc.PRELUDE + (badc.PRELUDE_F if flt else "")
    out.append(pre.rstrip("\n"))
    mark = None
    for ui, u in enumerate(data["units"]):
        b = bad and data.get("bad") and data["bad"][0] == ui
        if u["u"] in "FP":
            s = rename(frag(p, u["f"][0], b, data["target"]), ui)
            if b:
                s = "\x01" + s + "\x02"
                if u["f"][0][0] in ("F", "P") and p[u["f"][0][0]][u["f"][0][1]][0] in LATE:
                    s = s.replace("\x02", "\x03")
            out.append(s)
        else:
            body = ""
            for fi, f in enumerate(u["f"]):
                fb = b and data["bad"][1] == fi
                s = frag(p, f, fb, data["target"])
                if fb:
                    late = s in LATE or "goto" in s and "goto ;" not in s or f[0] == "S" and "zl" in s
                    s = "\x01" + s + ("\x03" if late else "\x02")
                s = "{\n%s\n}" % s
                for k, w in enumerate(f[2]):
                    s = rename_l(WRAP[w] if w < len(WRAP) else WRAPL[w - len(WRAP)], k) % s.replace("%", "%%") if False else (rename_l(WRAP[w] if w < len(WRAP) else WRAPL[w - len(WRAP)], k)).replace("%s", s)
                s = rename(s, ui * 10 + fi)
                body += s + "\n"
            tail = {"v": "", "i": "return 1;\n", "s": "return zs;\n"}[u["u"]]
            out.append(HEADS[u["u"]] % ("zfn%d" % ui) + body + tail + "}")
    out.append("int zend;")
    return out


def rename_l(s, k):
    return s.replace("zl1", "zl1%d" % k).replace("zy1", "zy1%d" % k)


def layout(units_, rnd, pp):
    """Splits the units over files and adds #line. -> ({file: text}, where(mark char) -> (name, line))"""
    files = {"t.c": []}
    pos = {}
    shift = [("t.c", 0)]

    def emit(fname, s, base):
        lines = files.setdefault(fname, [])
        for ln in s.split("\n"):
            n = len(lines) + 1
            for ch in ln:
                if ch in "\x01\x02\x03":
                    pos[ch] = (base[0], n + base[1])
            lines.append(ln)
        pos["end"] = (base[0], len(lines) + 1 + base[1])

    base = ["t.c", 0]
    cur = "t.c"
    inc = 0
    i = 0
    while i < len(units_):
        r = rnd.random()
        if i and r < 0.08:
            n = rnd.choice([1, 5, 1000, 30000])
            nm = rnd.choice(["x.c", "y.h", "t.c", base[0]])
            files[cur].append((rnd.choice(['#line %d "%s"', '# %d "%s"']) if not pp else '#line %d "%s"') % (n, nm))
            base = [nm, n - len(files[cur]) - 1]
        elif i and r < 0.16:
            inc += 1
            h = "h%d.h" % inc
            files.setdefault(cur, []).append('#include "%s"' % h)
            emit(h, units_[i], [h, 0])
            pos["end"] = (base[0], len(files[cur]) + 1 + base[1])
            i += 1
            continue
        emit(cur, units_[i], base)
        i += 1
    return {k: re.sub("[\x01\x02\x03]", "", "\n".join(v)) + "\n" for k, v in files.items()}, pos


def compile_(tc, data, files, work):
    for k, v in files.items():
        with open(os.path.join(work, k), "w", encoding="latin-1") as f:
            f.write(v)
    t = data["target"]
    if t == "pp":
        r = run([tc.tool("smlrpp"), "-zI", "t.c", "-o", "t.i"], cwd=work)
        if r.rc == "wall":
            raise Infra("wall")
        if r.rc != 0:
            return r
        return run([tc.tool("smlrc"), *FLAGS[t], "-nopp", "t.i", "t.asm"], cwd=work)
    tool = "smlrcmips" if t == "mips" else "smlrc"
    r = run([tc.tool(tool), *FLAGS[t], "t.c", "t.asm"], cwd=work)
    if r.rc == "wall":
        raise Infra("wall")
    return r


ERR = re.compile(rb'Error in "([^"]*)" \((\d+):(\d+)\)\s+(\S.*)')
PPERR = re.compile(rb'^(\S+): line (\d+): (.*)', re.M)


def judge(data, r, what):
    """-> (file, line) or text of the complaint"""
    if r.rc != 1:
        return "%s: exit status %s %r" % (what, r.rc, (r.out + r.err)[-200:])
    m = ERR.search(r.out + r.err)
    if m:
        return m.group(1).decode("latin-1"), int(m.group(2))
    m = PPERR.search(r.out + r.err)
    if m:
        return m.group(1).decode("latin-1"), int(m.group(2))
    return "%s: no error message %r" % (what, (r.out + r.err)[-200:])


def check(tc, data, work):
    import random
    st = {"evaluations": 1, "by_target": {data["target"]: 1}, "modes": {data["mode"]: 1}}
    if data["mode"] == "cut":
        return check_cut(tc, data, work, st)
    rnd = random.Random(data["seed"])
    good = text(data, False)
    files, _ = layout(good, random.Random(data["seed"]), data["target"] == "pp")
    r = compile_(tc, data, files, work)
    if r.rc != 0:
        return {"msg": "valid program rejected on %s: %r\n%s" % (data["target"], (r.out + r.err)[-300:], dump(files))}, st
    if data["mode"] == "und":
        alln = re.compile(r"(?<![\w.>])(zi|zc|zu|zp|zs|za|zsp|zcp)(?![\w:])")
        spots = []
        for ui, u in enumerate(good[1:], 1):
            if "goto" in u or u.startswith(("#", "extern", "int zi")):
                continue
            spots += [(ui, m) for m in alln.finditer(u)]
        if not spots:
            return None, {}
        ui, m = rnd.choice(spots)
        u = good[ui]
        nm = rnd.choice(["zundef", m.group() + "x", "Z" + m.group()[1:], "z"])
        good = good[:ui] + [u[:m.start()] + "\x01" + nm + "\x02" + u[m.end():]] + good[ui + 1:]
        desc = "identifier %s replaced by %s" % (m.group(), nm)
        bad = good
    else:
        bad = text(data, True)
        u = data["units"][data["bad"][0]]
        f = u["f"][data["bad"][1]]
        desc = "%r instead of %r" % (redecl.pair(f[1], data["target"] in WIDE)[:2] if f[0] == "G" else tuple(pools(True)[f[0]][f[1]])[:2])
        st["kinds"] = {f[0]: 1}
    files, pos = layout(bad, random.Random(data["seed"]), data["target"] == "pp")
    st["nontrivial_keys"] = [exprcheck.hash_key(repr(files) + data["target"])]
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    r = compile_(tc, data, files, work)
    if data["target"] == "mips" and r.rc == 0 and data["mode"] == "pair" and u["u"] == "F":
        # duplicate definitions are left to the assembler on this target
        os.rename(os.path.join(work, "t.asm"), os.path.join(work, "t.s"))
        a = run(["mipsel-linux-gnu-gcc", "-mno-abicalls", "-march=mips32r2", "-c", "t.s", "-o", "t.o"], cwd=work)
        if a.rc != 0 and b"is already defined" in a.err:
            return None, st
    w = judge(data, r, desc)
    if isinstance(w, str):
        return {"msg": "%s on %s\n%s" % (w, data["target"], dump(files))}, st
    a, b = pos.get("\x01"), pos.get("\x02")
    late = "\x03" in pos
    if late:
        # anywhere from the violation on; files can only be the same one or the including one
        ok = w[0] in [pos["end"][0], a[0]] + list(files) or w[0] in ("x.c", "y.h")
    else:
        ok = w[0] == a[0] and a[1] <= w[1] <= b[1] + 1
        if not ok and w[0] != a[0]:
            ok = w == pos["end"] or w[0] in files and a[0] in files and a[0] != "t.c" and b[1] + 1 >= files[a[0]].count("\n")  # next token is in the including file
    if not ok:
        return {"msg": "%s on %s is reported at %s, and it is at %s..%s\n%s" % (desc, data["target"], w, a, b, dump(files))}, st
    return None, st


def mask(s):
    """Positions of brackets outside literals and comments."""
    res = []
    for m in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|/\*.*?\*/|//[^\n]*|^#[^\n]*|[][(){}]', s, re.S | re.M):
        if m.group() in "[](){}":
            res.append(m.start())
    return res


def check_cut(tc, data, work, st):
    import random
    rnd = random.Random(data["seed"])
    if data["prog"]:
        cfg = exprcheck.cfg_of("linux", False)
        src = cprog.render(cfg, data["prog"])
        if data["target"] == "tiny":
            data = {**data, "target": "linux"}
    else:
        src = "\n".join(text({**data, "bad": None}, False)) + "\n"
    r = compile_(tc, data, {"t.c": src}, work)
    if r.rc != 0:
        return {"msg": "valid program rejected on %s: %r\n%s" % (data["target"], (r.out + r.err)[-300:], src)}, st
    pos = mask(src)
    if data["kind"] == "ins":
        i = rnd.choice(pos)
        bad = src[:i] + rnd.choice("()[]{}") + src[i:]
    elif data["kind"] == "swap":
        i = rnd.choice(pos)
        bad = src[:i] + rnd.choice([c for c in "()[]{}" if c != src[i]]) + src[i + 1:]
    else:
        i = rnd.choice(pos)
        bad = src[:i] + src[i + 1:]
    r = compile_(tc, data, {"t.c": bad}, work)
    st["nontrivial_keys"] = [exprcheck.hash_key(bad)]
    w = judge(data, r, "unbalanced brackets")
    line = src[:i].count("\n") + 1
    if isinstance(w, str):
        return {"msg": "%s on %s, line %d\n%s" % (w, data["target"], line, bad)}, st
    if w[0] != "t.c" or not 1 <= w[1] <= bad.count("\n") + 1:
        return {"msg": "reported at %s" % (w,)}, st
    return None, st


def dump(files):
    return "".join("--- %s\n%s" % (k, v.replace(badc.PRELUDE, "[prelude]\n")[:1500]) for k, v in files.items())


def candidates(data):
    us = data["units"]
    for i in range(len(us)):
        if data["mode"] == "cut" and data["prog"]:
            break
        if len(us) > 1 and data.get("bad", [-1])[0] != i:
            d = {**data, "units": us[:i] + us[i + 1:]}
            if "bad" in data and data["bad"][0] > i:
                d["bad"] = [data["bad"][0] - 1, data["bad"][1]]
            yield d
    if "bad" in data:
        i, j = data["bad"]
        u = us[i]
        if len(u["f"]) > 1:
            yield {**data, "units": us[:i] + [{**u, "f": [u["f"][j]]}] + us[i + 1:], "bad": [i, 0]}
        f = u["f"][j]
        if len(f) > 2 and f[2]:
            for k in range(len(f[2])):
                nf = [f[0], f[1], f[2][:k] + f[2][k + 1:], f[3]]
                yield {**data, "units": us[:i] + [{**u, "f": u["f"][:j] + [nf] + u["f"][j + 1:]}] + us[i + 1:]}


def sample(data):
    if data["mode"] == "pair":
        f = data["units"][data["bad"][0]]["f"][data["bad"][1]]
        return {"target": data["target"], "violation and twin": list(redecl.pair(f[1], data["target"] in WIDE)[:2]) if f[0] == "G" else pools(True)[f[0]][f[1]], "nesting": f[2:]}
    return {"mode": data["mode"], "target": data["target"]}
