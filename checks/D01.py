"""D01: one driver command against the steps it stands for, with the real tools."""
import json, os
from vlib import core, drv, drvgen, exprcheck

ID = "D01"
NEEDS = ("smlrcc", "smlrc", "smlrpp", "smlrl", "n2f", "dpstub", "lcdh", "lcdu", "lcds", "lcw", "lcl", "lcdp", "lcm")
QUICK = (1000, 60)
THOROUGH = (30000, 700)
TECHNIQUE = "property-based testing, differential: generated multi-module programs built by one smlrcc command, by the steps the documentation gives (run by hand with the real tools) and in other groupings"
LEVEL_NOTE = "Every target, several assemblers and preprocessors, all options with sensible values, C, preprocessed, assembly, object and archive inputs in several directories; results compared byte for byte, Linux programs also run against the expected output."
RULE = ("Each evaluation is one generated program and command line. Oracle: the documented steps, run one by one with the arguments the documentation says, give the same executable, map, object and assembly files and fail exactly if the command does; "
        "so do separate -c commands followed by a linking command, and one -c command for all. Linux executables print the value computed by the generator's own evaluation of macros and calls. Non-trivial: at least two modules and a successful build; distinct by case.")
ASSUMPTIONS = ["the separate tools themselves are right (other properties)", "nasm, yasm and fasm are deterministic"]
LIBT = list(drv.LIBNAME)


def gen(rng, idx, tier):
    t = drv.TARGETS[idx % len(drv.TARGETS)] if rng.random() < 0.6 else rng.choice(["linux", "linux", "linux"] + LIBT)
    n = rng.choice([1, 2, 2, 3, 3, 4, 6])
    mods = []
    for k in range(n):
        kind = rng.choice(["c"] * 6 + ["C", "i", "asm", "o", "a"])
        if k == n - 1:
            kind = rng.choice(["c", "c", "c", "i"])
        mods.append({"kind": kind, "name": rng.choice(["", "", "", "d/", "d/e/", "./"]) + rng.choice(["m%d", "mod_%d", "a.%d", "x-%d"]) % k, "k": rng.randint(-3, 50), "m": rng.randint(1, 9),
                     "mac": [rng.choice(["A", "B", "FOO", "__SMALLER_C__", "_LINUX", "_DOS", "_WINDOWS", "_MACOS", "__SMALLER_C_32__", "__SMALLER_C_WCHAR16__", "__SMALLER_C_UCHAR__", "__SMALLER_C_UWCHAR__", "__HUGE__", "__UNREAL__", "_DPMI", "__SMALLER_PP__"]) for _ in range(rng.choice([1, 2, 3]))],
                     "hdr": rng.random() < 0.5})
    opts = [["-" + t]] if t != "linux" or rng.random() < 0.7 else []
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
        q = rng.randrange(12)
        if q < 4:
            m = rng.choice(["A", "B", "FOO"]) + rng.choice(["", "=%d" % rng.randint(0, 99), "=%d" % rng.randint(0, 9), "=(1+2)"])
            opts.append(["-D" + m] if rng.random() < 0.5 else ["-D", m])
        elif q < 6:
            o, v = rng.choice(["-I", "-I", "-SI"]), rng.choice(["inc1", "inc2", "inc1", "none"])
            opts.append([o + v] if rng.random() < 0.5 else [o, v])
        elif q < 8:
            opts.append([rng.choice(["-signed-char", "-unsigned-char", "-signed-wchar", "-unsigned-wchar", "-short-wchar", "-long-wchar", "-leading-underscore", "-no-leading-underscore", "-winstack", "-Wall", "-nobss", "-v", "-verbose"])])
        elif q == 8:
            opts.append(["-map", rng.choice(["x.map", "d/y.map"])])
        elif q == 9:
            opts.append(rng.choice([["-stack", "16384"], ["-minheap", "8192"], ["-maxheap", "65536"], ["-pesubsys", "2"], ["-gui"], ["-norel"], ["-origin", "0x400000"], ["-origin", "65536"], ["-entry", rng.choice(["_f0", "__start", "_main", "none"])]]))
        elif q == 10:
            opts.append(["-asm", rng.choice(["nasm", "yasm", "n2f"])])
        else:
            opts.append([rng.choice(["-nopp", "-ppg"])])
    seen, u = set(), []
    for o in opts:
        if o[0] in ("-nopp", "-ppg"):
            if seen:
                continue
            seen.add(o[0])
        u.append(o)
    opts = u
    mode = rng.choice(["link", "link", "link", "c", "S"])
    if mode != "link":
        opts.append(["-" + mode])
    if mode == "link" and rng.random() < 0.6:
        opts.append(["-o", rng.choice(["prog", "d/prog.exe", "p.com"])])
    elif mode != "link" and n == 1 and rng.random() < 0.5:
        opts.append(["-o", rng.choice(["res.o", "d/res", "res.x"])])
    if any(m["hdr"] for m in mods) and rng.random() < 0.9:
        opts.append(["-I", rng.choice(["inc1", "inc2"])])
    rng.shuffle(opts)
    pos = sorted(rng.randint(0, len(opts)) for _ in mods)
    return {"target": t, "mods": mods, "opts": opts, "pos": pos, "mode": mode, "hx": [rng.randint(0, 20), rng.randint(0, 20)], "env": {"SMLRASM": "yasm"} if rng.random() < 0.06 else {}, "group": rng.randrange(3)}


def source(data, i, nopp=False, pre=False):
    m = data["mods"][i]
    last = i == len(data["mods"]) - 1
    us = "" if m["kind"] == "asm" and "-no-leading-underscore" in [o[0] for o in data["opts"]] else "_"
    if m["kind"] == "asm":
        return "section .data\n\tglobal %sv%d\n%sv%d:\n\tdd %d\n" % (us, i, us, i, m["k"])
    pp = m["kind"] in "cCoa" and not pre and not nopp
    s = []
    if m["hdr"] and (pp or nopp and m["kind"] in "cC"):
        s.append('#include "h.h"' if m["m"] % 2 else "#include <h.h>" if "-SI" in [o[0][:3] for o in data["opts"]] else '#include "h.h"')
        add = "HX"
    else:
        add = "%d" % m["m"]
    if last and data["target"] in LIBT:
        s.append("#include <stdio.h>" if m["kind"] != "i" else "int printf(char*, ...);")
    for j, q in enumerate(data["mods"][:i]):
        s.append("extern int v%d;" % j if q["kind"] == "asm" else "int f%d(int);" % j)
    terms = ["x * %d" % m["m"], "%d" % m["k"], add]
    if i:
        terms.append("v%d" % (i - 1) if data["mods"][i - 1]["kind"] == "asm" else "f%d(x + 1)" % (i - 1))
    s.append("static char c%d = 200;" % i)
    if pp:
        for q, mc in enumerate(m["mac"]):
            s.append("#ifdef %s\n#define T%d (%s+1)\n#else\n#define T%d 3\n#endif" % (mc, q, mc, q))
            terms.append("T%d" % q if mc in ("A", "B", "FOO") else "0")
            if mc not in ("A", "B", "FOO"):
                s.append("#ifdef %s\nint def%d_%d = 7;\n#endif" % (mc, i, q))
    elif nopp and m["kind"] in "cC":
        for q, mc in enumerate(m["mac"]):
            if mc not in ("A", "B", "FOO"):
                s.append("#ifdef %s\nint def%d_%d = 7;\n#endif" % (mc, i, q))
    s.append("int f%d(int x) { return (%s + (c%d > 0)); }" % (i, " + ".join(terms), i))
    if last:
        if data["target"] in LIBT:
            s.append('int main(void) { printf("%%d\\n", f%d(5)); return 0; }' % i)
        else:
            s.append("void _start(void) { f%d(5); for (;;); }" % i)
    return "\n".join(s) + "\n"


def expected(data):
    """What the program prints (target linux), or None where the generator does not compute it."""
    mac, inc, uchar = {}, [], False
    u = [a for o in data["opts"] for a in o]
    it = iter(u)
    for a in it:
        if a[:2] == "-D":
            v = a[2:] or next(it)
            n, _, x = v.partition("=")
            mac[n] = x if _ else "1"
        elif a in ("-unsigned-char", "-signed-char"):
            uchar = a == "-unsigned-char"
        elif a == "-ppg" or a == "-nopp":
            return None
        elif a[:2] == "-I":
            inc.append(a[2:] or next(it))
        elif a[:3] == "-SI":
            return None
    hx = {"inc1": data["hx"][0], "inc2": data["hx"][1]}
    inc = [i for i in inc if i in hx]

    def f(i, x):
        m = data["mods"][i]
        v = x * m["m"] + m["k"] + uchar
        if m["hdr"] and m["kind"] in "cCoa":
            v += hx[inc[0]] if inc else 0
        else:
            v += m["m"]
        if i:
            v += data["mods"][i - 1]["k"] if data["mods"][i - 1]["kind"] == "asm" else f(i - 1, x + 1)
        if m["kind"] in "cCoa":
            for c in m["mac"]:
                if c in ("A", "B", "FOO"):
                    v += 3 if c not in mac else (eval(mac[c]) if mac[c] else 0) + 1
        return v
    return f(len(data["mods"]) - 1, 5)


def run(tc, argv, w, env, cpu=20):
    e = {"PATH": tc.bin + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C"}
    e.update({k: v for k, v in env.items() if k[0] != "*"})
    return core.run([a.encode("latin-1") for a in argv], cwd=w, env=e, cpu=cpu)


def steps(tc, args, env, w):
    """Runs the plan's steps by hand. -> (plan, failing step or None, message)"""
    try:
        p = drv.plan(args, {**env, "*prefix": tc.dir}, lambda f: os.path.isfile(os.path.join(w, f)))
    except drv.Reject:
        return None, None, ""
    if p.badtype:
        return None, None, ""
    for k, s in enumerate(p.steps):
        r = run(tc, s.argv(), w, env)
        if r.rc != 0:
            return p, k, "%r: rc=%s %s" % (s.argv()[:1], r.rc, (r.out + r.err)[-150:])
    return p, None, ""


def outputs(w, names):
    o = {}
    for n in names:
        q = os.path.join(w, n)
        o[n] = open(q, "rb").read() if os.path.exists(q) else None
    return o


def check(tc, data, work):
    env = dict(data["env"], SMLRC=tc.smlrc_home)
    units = [list(o) for o in data["opts"]]
    flat = [a for o in data["opts"] for a in o]
    nopp = "-nopp" in flat
    mods = data["mods"]
    pos = data["pos"][:len(mods)]
    args, files, k = [], {}, 0
    for i in range(len(units) + 1):
        while k < len(mods) and min(pos[k], len(units)) == i:
            args.append(mods[k]["name"] + "." + mods[k]["kind"])
            k += 1
        if i < len(units):
            args += units[i]
    while k < len(mods):
        args.append(mods[k]["name"] + "." + mods[k]["kind"])
        k += 1
    inc = [x for f in flat for x in (f, f[2:], f[3:]) if x in ("inc1", "inc2")]
    base = {"inc1/h.h": "#define HX %d\n" % data["hx"][0], "inc2/h.h": "#define HX %d\n" % data["hx"][1], "d/keep": "", "d/e/keep": ""}
    if not inc:
        base["h.h"] = "#define HX 0\n"
    copts = [a for o in data["opts"] if o[0] not in ("-c", "-S", "-o", "-map") for a in o]
    pre = {}
    st = {"evaluations": 1, "targets": {data["target"]: 1}}

    def bad(m):
        return {"msg": "smlrcc %s: %s" % (" ".join(args), m)}, st
    # objects and archives given as inputs: built beforehand, by hand
    for i, m in enumerate(mods):
        if m["kind"] in "oa":
            files[m["name"] + ".o"] = None
            w = os.path.join(work, "pre%d" % i)
            os.makedirs(w)
            src = m["name"] + ".c"
            drv.put(w, {k: v.encode() for k, v in {**base, src: source(data, i, nopp)}.items()})
            p, bk, msg = steps(tc, [a for a in copts] + ["-c", src], env, w)
            if p is None or bk is not None:
                return None, {"evaluations": 0, "skipped": {"prebuilt object fails": 1}}
            o = os.path.join(w, m["name"] + ".o")
            if m["kind"] == "a":
                run(tc, ["ar", "rcD", "x.a", m["name"] + ".o"], w, env)
                o = w + "/x.a"
            pre[m["name"] + "." + m["kind"]] = open(o, "rb").read()
        else:
            pre[m["name"] + "." + m["kind"]] = source(data, i, nopp).encode()
    dirs = {}
    for t in ("one", "steps", "grp"):
        dirs[t] = os.path.join(work, t)
        os.makedirs(dirs[t])
        drv.put(dirs[t], {k: v.encode() for k, v in base.items()})
        drv.put(dirs[t], pre)
    p, bk, msg = steps(tc, args, env, dirs["steps"])
    if p is None:
        return None, {"evaluations": 0, "skipped": {"rejected": 1}}
    r = run(tc, ["smlrcc"] + args, dirs["one"], env, cpu=40)
    if (r.rc == 0) != (bk is None):
        return bad("exit status %s, but the steps %s\n%s" % (r.rc, "all succeed" if bk is None else "fail: " + msg, (r.out + r.err)[-300:].decode("latin-1")))
    st["builds"] = {"ok" if r.rc == 0 else "fails": 1}
    if r.rc != 0:
        if p.out and data["mode"] == "link" and os.path.exists(os.path.join(dirs["one"], p.out)):
            return bad("fails but leaves %s" % p.out)
        return None, st
    names = sorted(p.outs) + [o[1] for o in data["opts"] if o[0] == "-map" and data["mode"] == "link"][-1:]      # the last one counts
    a, b = outputs(dirs["one"], names), outputs(dirs["steps"], names)
    for n in names:
        if a[n] is None:
            return bad("%s is missing" % n)
        if a[n] != b[n]:
            return bad("%s differs from what the steps give (%s and %s bytes)" % (n, len(a[n]), b[n] and len(b[n])))
    if data["mode"] == "link":
        # other groupings
        w = dirs["grp"]
        cs = [m["name"] + "." + m["kind"] for m in mods if m["kind"] not in "oa"]
        groups = [cs] if data["group"] == 0 else [[c] for c in cs] if data["group"] == 1 else [[c] for c in cs[:1]] + ([cs[1:]] if cs[1:] else [])
        for g in groups:
            q = run(tc, ["smlrcc"] + copts + ["-c"] + g, w, env)
            if q.rc != 0:
                return bad("builds in one go, but -c %r fails: %s" % (g, (q.out + q.err)[-200:]))
        link = [x if x not in cs else x.rsplit(".", 1)[0] + ".o" for x in args]
        q = run(tc, ["smlrcc"] + link, w, env)
        if q.rc != 0:
            return bad("builds in one go, but linking the objects fails: %s" % (q.out + q.err)[-200:])
        c = outputs(w, names)
        for n in names:
            if c[n] != a[n]:
                return bad("%s differs from the one built with separate -c commands" % n)
        if data["target"] in ("linux",) and "-entry" not in flat and "-I" not in [f[:2] for f in flat if f[2:] == "none"]:
            want = expected(data)
            if want is not None:
                q = run(tc, ["./" + p.out], dirs["one"], env, cpu=5)
                if q.rc != 0 or q.out != b"%d\n" % want:
                    return bad("prints %r (rc %s) instead of %d" % (q.out[:40], q.rc, want))
                st["run"] = 1
    if len(mods) >= 2:
        st["nontrivial_keys"] = [exprcheck.hash_key(json.dumps(data, sort_keys=True))]
    return None, st


def candidates(data):
    for i in range(len(data["opts"])):
        if data["opts"][i][0] not in ("-c", "-S") and data["opts"][i] != ["-" + data["target"]]:
            yield {**data, "opts": data["opts"][:i] + data["opts"][i + 1:]}
    for i in range(len(data["mods"]) - 1):
        yield {**data, "mods": data["mods"][:i] + data["mods"][i + 1:]}
    for i, m in enumerate(data["mods"]):
        for c in ({**m, "kind": "c"}, {**m, "mac": m["mac"][:1]}, {**m, "hdr": False}, {**m, "k": 1, "m": 1}, {**m, "name": "m%d" % i}):
            if c != m:
                yield {**data, "mods": data["mods"][:i] + [c] + data["mods"][i + 1:]}
    if data["target"] != "linux":
        yield {**data, "target": "linux", "opts": [o for o in data["opts"] if o != ["-" + data["target"]]]}


def signature(data, fail):
    return fail["msg"].split(": ", 1)[-1][:16]


def sample(data):
    return {"options": data["opts"], "modules": [m["name"] + "." + m["kind"] for m in data["mods"]]}
