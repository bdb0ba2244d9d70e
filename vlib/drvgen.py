"""Generators of driver command lines, and the judge of a run with stand-in tools."""
import os

from . import drv

# No piece can name a program or a path: the strings are harmless even where quoting fails.
PIECES = ["a", "b", "Xy", "1", "_", "0", " ", "  ", "\t", '"', "'", "\\", "\\\\", '\\"', "$", "$a", "$(b)", "`a`", "`", ";", "&", "&&", "|", "<a", ">b", "(", ")", "*", "?", "[a]", "{a,b}", "~", "#", "!", "%",
          "^", "=", ",", "%a%", ":", "+", "-", "@", "\xe9", "\x7f", "$1", "${a}", "$$", "''", '""', "\n"]
PLAIN = ["a", "b", "foo", "x1", "main", "Q_9", "mod", "longer_file_name_of_a_module", "t", "e"]


def weird(r, n=5):
    return "".join(r.choice(PIECES) for _ in range(r.randint(1, n)))


def name(r, special):
    if not special or r.random() < 0.3:
        return r.choice(PLAIN) + r.choice(["", "", "2", "_b", "-c", ".x"])
    s = weird(r, 4)
    while s[0] in "-@" or s in (".", "..") or s[0] == "=":
        s = r.choice(PLAIN) + s[1:]
    return s


def macro(r, special):
    n = r.choice(["A", "B", "FOO", "x_1", "M(a)", "M(a,b)", "V(...)"])
    if r.random() < 0.25:
        return n
    return n + "=" + (weird(r, 6) if special else r.choice(["1", "0", "abc", "x1", "", "0x10", "-1", "a+b"]))


def command(r, special=False, kinds=None, targets=None):
    """-> {"args": [...], "files": {name: content}, "env": {...}, "rsp": {file: text}}"""
    files, args = {}, []
    t = r.choice(targets or drv.TARGETS)
    opts = []
    if r.random() < 0.85 or targets:
        opts.append(["-" + t])
    else:
        t = "linux"
    used = set()
    d = ["", "", "", "d/", "d e/" if special else "d/e/", "./"]
    mode = r.choice(["link", "link", "c", "S", "a"])
    ins = []
    for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
        k = r.choice(kinds or ["c", "c", "c", "c", "asm", "i", "o", "a", "C", "ASM"])
        b = r.choice(d) + name(r, special)
        key = os.path.normpath(b)
        if key in used:
            continue
        used.add(key)
        n = b + "." + k
        files[os.path.normpath(n)] = "input %d\n" % len(files)
        ins.append([n])
    if not ins:
        ins.append(["z.c"])
        files["z.c"] = "input z\n"
    stems = {os.path.normpath(x[0].rsplit(".", 1)[0]) for x in ins}
    out = None
    if mode == "link":
        if r.random() < 0.7:
            out = r.choice(["out", "prog.exe", "d/out", "x.com", "a.b.c"]) if not special or r.random() < 0.4 else name(r, True) + r.choice(["", ".exe"])
    else:
        if mode != "a" or r.random() < 0.9:
            opts.append(["-S"] if mode == "S" else ["-c"])
            if mode == "S" and r.random() < 0.5:
                opts.append(["-c"])
        if mode == "a":
            out = (name(r, special) if r.random() < 0.5 else "d/lib") + r.choice([".a", ".a", ".A"])
        elif len(ins) == 1 and r.random() < 0.6:
            out = name(r, special) + r.choice([".o", ".asm", "", ".x"])
    if out is not None:
        if os.path.normpath(out) in files or os.path.normpath(out) in stems or out.rsplit(".", 1)[0] in stems:
            out = "zz" + ("/" if False else "") + os.path.basename(out)
        opts.append(["-o", out])
    env = {}
    for _ in range(r.choice([0, 0, 1, 2, 3, 5])):
        k = r.randrange(12)
        if k < 4:
            m = macro(r, special)
            opts.append(["-D" + m] if r.random() < 0.5 else ["-D", m])
        elif k < 6:
            v = "d" if r.random() < 0.3 else name(r, special)
            o = r.choice(["-I", "-I", "-SI"])
            opts.append([o + v] if r.random() < 0.5 else [o, v])
        elif k < 8:
            opts.append([r.choice(drv.CHAROPT)])
        elif k == 8:
            o = r.choice(drv.LINK2)
            opts.append([o, name(r, special) if o in ("-map", "-entry") else r.choice(["0x1000", "4096", "010000", "2"])])
        elif k == 9:
            opts.append([r.choice(["-norel", "-gui", "-nobss", "-v", "-verbose", "-nobss"])])
        elif k == 10 and t == "dosp":
            opts.append(["-stub", name(r, special)])
        elif k == 11:
            opts.append(["-asm", r.choice(["nasm", "yasm", "n2f"] + (["my asm"] if special else []))])
    if r.random() < 0.2:
        opts.append(["-nopp"])
    elif r.random() < 0.12:
        opts.append(["-ppg"])
    if r.random() < 0.08:
        env["SMLRPPG"] = "gcc"
    if r.random() < 0.15:
        env["SMLRASM"] = r.choice(["yasm", "n2f"] + (["my asm"] if special else []))
    # where headers and libraries are
    for var in ("SMLRC", "HOME"):
        if r.random() < 0.6:
            root = "d_" + var if not special or r.random() < 0.5 else name(r, True) + var
            env[var] = root + r.choice(["", "/"])
            sub = root + ("/smlrc" if var == "HOME" else "")
            if r.random() < 0.8:
                files[sub + "/include/limits.h"] = ""
            if t in drv.LIBNAME and r.random() < 0.8:
                files[sub + "/lib/" + drv.LIBNAME[t]] = ""
            if r.random() < 0.7:
                files[sub + "/lib/dpstub.exe"] = ""
    if r.random() < 0.2:
        v = "sl" if not special or r.random() < 0.5 else name(r, True) + "sl"
        opts.append(["-SL" + v] if r.random() < 0.5 else ["-SL", v])
        if t in drv.LIBNAME and r.random() < 0.8:
            files[v + "/" + drv.LIBNAME[t]] = ""
            if r.random() < 0.7:
                files[v + "/dpstub.exe"] = ""
    files.setdefault("d/keep", "")
    # interleave
    units = opts[:]
    r.shuffle(units)
    for x in ins:
        units.insert(r.randint(0, len(units)), x)
    # inputs keep their order
    it = iter(ins)
    units = [next(it) if u in ins else u for u in units]
    return {"units": units, "files": files, "env": env, "target": t}


def respond(r, data):
    """Moves stretches of arguments without white space into @files."""
    args = [a for u in data["units"] for a in u]
    rsp = {}
    k = 0
    i = 0
    out = []
    while i < len(args):
        if r.random() < 0.3 and k < 3:
            j = i
            n = r.choice([0, 1, 2, 3, 20])
            toks = []
            while j < len(args) and len(toks) < n and args[j] and not any(c in args[j] for c in " \t\n\v\f\r") and args[j][0] != "@":
                toks.append(args[j])
                j += 1
            f = "r%d.txt" % k
            k += 1
            rsp[f] = "".join(r.choice(["", "", " ", "\n"]) + t + r.choice([" ", "\n", "\r\n", "\t", "  \n", "\f", "\v"]) for t in toks)
            if r.random() < 0.3:
                rsp[f] = rsp[f].rstrip()
            out.append("@" + f)
            i = j
            if not toks:
                out.append(args[i])
                i += 1
        else:
            out.append(args[i])
            i += 1
    return out, rsp


def expand(args, rsp):
    out = []
    for a in args:
        if a[:1] == "@" and a[1:] in rsp:
            out += rsp[a[1:]].split()
        else:
            out.append(a)
    return out


def prepare(tc, data, work):
    """Lays the files out. -> (args, model env, Plan or None for a rejected command line)"""
    w = os.path.join(work, "w")
    os.makedirs(w)
    drv.put(w, {k: v.encode("latin-1") for k, v in data["files"].items()})
    rsp = data.get("rsp") or {}
    drv.put(w, {k: v.encode("latin-1") for k, v in rsp.items()})
    args = data.get("args") or [a for u in data["units"] for a in u]
    env = {**data["env"], "*prefix": tc.dir}
    enc = lambda p: os.path.join(w, p).encode("latin-1", "surrogateescape")
    try:
        p = drv.plan(expand(args, rsp), env, lambda f: os.path.isfile(os.path.join(w.encode(), f.encode("latin-1"))))
    except drv.Reject:
        p = None
    return w, args, env, p
