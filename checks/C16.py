"""C16: the tools built by this compiler behave exactly as the ones built by the host compiler."""
import fcntl, json, os, re, shutil, stat
from vlib import cexpr, cflt, cmem, core, cprog, exprcheck, fuzzsrc, linkm, targets
from vlib.core import Infra
from checks import P01, P05

ID = "C16"
NEEDS = ("tools", "smlrcmips", "n2f", "lcl", "lcw", "lcm", "lcdp", "lcdh")
QUICK = (3200, 55)
THOROUGH = (120000, 720)
TECHNIQUE = "property-based testing: differential between the tools built by the host compiler and built by themselves for five systems, on generated and mutated inputs"
LEVEL_NOTE = "Compiler (x86 and MIPS), preprocessor, linker and converter built by themselves for Linux, Windows, macOS, DPMI (run natively under a stand-in loader) and huge-model DOS; random programs, mutated sources, directive soup and object files."
RULE = ("Each evaluation is one run of a tool on a generated or mutated input by both builds: exit status, messages and output files must be byte-identical (line ends apart, where the system's text files have others). Runs the host-built tool does not survive are not judged. "
        "Non-trivial: an input of more than 40 bytes; distinct by input, options and system.")
ASSUMPTIONS = ["#if arithmetic is as wide as the widest integer of the compiler that built the preprocessor (ucpp/config.h), so generated conditionals stay within 32 bits", "the huge-model linker is built with the support of local relocations that it leaves out by default, to save memory", "input without carriage returns and control-Z, which text files of DOS and Windows treat otherwise"]
HOSTS = ("linux", "win", "macos", "dosp")
TOOLS = {"smlrc": ("-Wall", "smlrc.c"), "smlrcmips": ("-DMIPS", "smlrc.c"), "smlrl": ("smlrl.c",), "n2f": ("n2f.c",),
         "smlrpp": ("-DSTAND_ALONE", "-DUCPP_CONFIG", *["ucpp/%s.c" % x for x in "arith assert cpp eval lexer macro mem nhash".split()])}
_SD = []


def self_tool(tc, host, tool):
    return os.path.join(tc.dir, "self", host, tool)


def build_one(tc, host, tool):
    exe = self_tool(tc, host, tool)
    d = os.path.dirname(exe)
    os.makedirs(d, exist_ok=True)
    with open(exe + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe) or os.path.exists(exe + ".bad"):
            return
        w = exe + ".b"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        for n in os.listdir(tc.src):
            if n.endswith((".c", ".h")):
                shutil.copy(os.path.join(tc.src, n), w)
        shutil.copytree(os.path.join(tc.src, "ucpp"), w + "/ucpp")
        o = {"linux": ["-linux"], "win": ["-win"], "macos": ["-macos", "-origin", "0x100000"], "dosp": ["-dosp"], "huge": ["-dosh"]}[host]
        r = core.run([tc.tool("smlrcc"), *o, *(["-DSUPPORT_LOCAL_RELS"] if host == "huge" else []), *TOOLS[tool], "-o", "x.exe"], cwd=w, env=tc.env(), cpu=120, wall=400)
        if r.rc:
            with open(exe + ".bad", "wb") as f:
                f.write(b"smlrcc %s %s: rc %s\n" % (" ".join(o).encode(), " ".join(TOOLS[tool]).encode(), str(r.rc).encode()) + r.out[-1500:] + r.err[-500:])
        else:
            os.chmod(w + "/x.exe", 0o755)
            os.rename(w + "/x.exe", exe)
        shutil.rmtree(w)


def setup(tc):
    global _SD
    from concurrent.futures import ThreadPoolExecutor
    targets.oshost(tc)
    jobs = [(h, t) for t in ("smlrc", "smlrcmips", "smlrpp", "smlrl", "n2f") for h in HOSTS + ("huge",)]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: build_one(tc, *j), jobs))
    _SD = fuzzsrc.seeds(tc)


# ---------------------------------------------------------------- generation

def edit(rng, s):
    """A few token edits."""
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        t = fuzzsrc.TOK.findall(s)
        if not t:
            break
        i = rng.randrange(len(t))
        k = rng.randrange(7)
        if k == 0:
            del t[i]
        elif k == 1:
            t.insert(i, fuzzsrc.token(rng))
        elif k == 2:
            t[i] = fuzzsrc.token(rng)
        elif k == 3:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k == 4:
            del t[i:i + rng.randrange(1, 12)]
        elif k == 5:
            o = fuzzsrc.TOK.findall(fuzzsrc.base(rng, _SD))
            j = rng.randrange(max(1, len(o)))
            t[i:i] = o[j:j + rng.randrange(1, 25)]
        else:
            t[i] = fuzzsrc.genmany(rng)
        s = b"".join(t)
    return clean(s)[:60000]


def clean(s):
    return s.replace(b"\r", b" ").replace(b"\x1a", b" ").replace(b"\0", b" ")


def c_source(rng, big=True):
    k = rng.random()
    cfg = exprcheck.cfg_of(rng.choice(["linux", "linux", "huge", "small", "mips"]), rng.random() < 0.3)
    if k < 0.2:
        its = [cexpr.gen_item(rng, cfg, 20) if rng.random() < 0.6 else exprcheck.const_item(rng, cfg, 20) for _ in range(rng.choice([1, 4, 12]))]
        try:
            return cexpr.program(cfg, its)[0].encode("latin-1")
        except cexpr.UB:
            return b"int x;\n"
    if k < 0.35:
        return cprog.render(cfg, cprog.PGen(rng, cfg, rng.choice([8, 20, 50])).program()).encode("latin-1")
    if k < 0.5:
        while True:
            u = cmem.MGen(rng, cfg, {"rd": 4, "wr": 4, "as": 3, "pa": 3, "cp": 3, "by": 2, "pp": 2, "pq": 2, "pf": 2, "ca": 2, "sz": 1}).unit()
            try:
                return cmem.program(cfg, [u])[0].encode("latin-1")
            except cmem.Bad:
                pass
    if k < 0.62:
        env = cflt.gen_env(rng, False)
        try:
            return cflt.program({"target": "linux", "env": env, "items": [cflt.gen_item(rng, env) for _ in range(rng.choice([3, 12]))]})[0].encode("latin-1")
        except cflt.UB:
            return b"float f;\n"
    if k < 0.72:
        # constants of every spelling
        o = []
        for i in range(rng.choice([3, 10, 30])):
            x = rng.choice([lambda: "%d" % rng.getrandbits(rng.choice([8, 16, 31, 32, 33])), lambda: "0x%x" % rng.getrandbits(rng.choice([8, 16, 32, 33])), lambda: "0%o" % rng.getrandbits(rng.choice([8, 16, 32])),
                            lambda: "%.*ge%d" % (rng.choice([1, 7, 9, 20]), rng.random() * 10, rng.randrange(-50, 42)), lambda: "%d.%df" % (rng.getrandbits(20), rng.getrandbits(30)), lambda: "'\\x%x'" % rng.getrandbits(rng.choice([4, 8])), lambda: "L'\\x%x'" % rng.getrandbits(16), lambda: "0x%xp%d" % (rng.getrandbits(24), rng.randrange(-150, 130)),
                            lambda: "sizeof(%s)" % rng.choice(["int", '"abc"', "char*", "int[3]", "float"])])() + rng.choice(["", "", "", "u", "L", "UL"])
            y = "%d" % rng.randrange(1, 1000) if rng.random() < 0.5 else x
            op = rng.choice(["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", "==", "&&", ",", "?1:"])
            o.append("%s a%d = %s%s;" % (rng.choice(["int", "unsigned", "float", "char", "long", "short", "enum { E%d =" % i if rng.random() < 0.1 else "int"]), i, rng.choice(["", "-", "~", "!", "(char)", "(unsigned)", "(float)", "-(float)", "(int)(float)", "(unsigned)(float)"]), x + ((" %s %s" % (op, y)) if rng.random() < 0.6 else "")))
        return "\n".join(o).encode("latin-1") + b"\n"
    return fuzzsrc.base(rng, _SD)


def flags_c(rng, tool):
    f = []
    if tool == "smlrc":
        f += rng.choice([["-seg16"], ["-seg32"], ["-seg32"], ["-huge"], ["-unreal"]])
        for o in ("-nobss", "-winstack"):
            if rng.random() < 0.1:
                f.append(o)
    for o in ("-Wall", "-verbose", "-unsigned-char", "-signed-wchar", "-long-wchar", "-no-externs", "-leading-underscore", "-no-leading-underscore"):
        if rng.random() < 0.12:
            f.append(o)
    if rng.random() < 0.15:
        f += ["-label", str(rng.choice([0, 1, 77, 100000, -5, 2147483000]))]
    if rng.random() < 0.15:
        f += ["-D", rng.choice(["X", "X=1", "a=b", "int=char", "X=", "9", "NDEBUG"])]
    if rng.random() < 0.3:
        f += ["-I", "."]
    if rng.random() < 0.02:
        f.append(rng.choice(["-x", "-", "-label", "-D"]))
    rng.shuffle(f) if not any(x in f for x in ("-label", "-D", "-I")) else None
    return f


def pp_source(rng):
    for _ in range(20):
        if rng.random() < 0.45:
            try:
                s = P01.source(P01.gen(rng, 0, "quick")["items"]).encode("latin-1")
            except (core.Infra, IndexError):
                continue
        elif rng.random() < 0.6:
            s = P05.seed(rng).encode("latin-1")
        else:
            s = c_source(rng)
        if rng.random() < 0.3:
            s = edit(rng, s)
        s = clean(s)
        # keep arithmetic within 32 bits
        s = re.sub(rb"<<|>>|<:|\b__(?:DATE|TIME)__\b|__TIME__|__DATE__", b"<", s) if b"#if" in s or b"#elif" in s else re.sub(rb"__(?:DATE|TIME)__", b"x", s)
        if re.search(rb"#\s*(?:el)?if\b|\bline\b|#\s*\d", s):
            s = re.sub(rb"[0-9][0-9a-zA-Z_]{5,}", b"99", s)
            s = s.replace(b"*", b"+").replace(b"ll", b"l").replace(b"LL", b"L")
        return s[:30000]
    return b"x\n"


PPOPT = ["-l", "-C", "-s", "-t", "-a", "-w", "-wa", "-ww", "-wt", "-wtt", "-wp", "-P", "-Q", "-e", "-S", "-M", "-Ma", "-y", "-zs", "-Dx", "-DX=1", "-DF(a,b)=a##b", "-UX", "-I.", "-c99", "-Aa(b)", "-d", "-q", "-m"]


def gen_job(rng, dos=False):
    k = rng.random()
    if k < 0.62:
        tool = "smlrc" if rng.random() < 0.8 else "smlrcmips"
        s = c_source(rng)
        s = edit(rng, s) if rng.random() < 0.6 else clean(s)[:60000]
        files = {"t.c": s.decode("latin-1")}
        if rng.random() < 0.1:
            files["h.h"] = clean(fuzzsrc.base(rng, _SD))[:3000].decode("latin-1")
            files["t.c"] = '#include "h.h"\n' + files["t.c"]
        return {"tool": tool, "args": flags_c(rng, tool) + ["t.c", "t.asm"], "files": files, "outs": ["t.asm"]}
    if k < 0.8:
        files = {"t.c": pp_source(rng).decode("latin-1")}
        if rng.random() < 0.2:
            files["h.h"] = pp_source(rng).decode("latin-1")
            files["t.c"] = '#include "h.h"\n' + files["t.c"]
        o = ["-zI"]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            o.append(rng.choice(PPOPT))
        if rng.random() < 0.3:
            o += ["-o", "t.i"]
        return {"tool": "smlrpp", "args": o + ["t.c"], "files": files, "outs": ["t.i"]}
    if k < 0.95 or dos:
        case = linkm.gen_case(rng, rng.choice(linkm.FORMATS))
        return {"tool": "smlrl", "case": case, "cut": rng.randrange(1, 1 << 20) if rng.random() < 0.15 else 0, "outs": ["x.exe", "x.map"]}
    return {"tool": "n2f", "src": c_source(rng).decode("latin-1"), "args": ["-f", "asm", "t.asm", "-o", "u.asm"], "outs": ["u.asm"]}


def gen(rng, idx, tier):
    if idx % 120 == 61:
        jobs = []
        while len(jobs) < 8:
            j = gen_job(rng, True)
            if sum(len(a) + 1 for a in j.get("args", [])) < 70 and not (j["tool"] == "smlrl" and linkargs(j)):
                jobs.append(j)
        return {"host": "huge", "items": jobs}
    return {"host": "linux" if idx % 2 else HOSTS[1 + idx // 2 % 3], "items": [gen_job(rng)]}


def linkargs(j):
    return sum(len(a) + 1 for a in linkm.args_of(j["case"], "x.exe", "x.map" if j["case"].get("map") else None)) + 5 * len(j["case"]["inputs"]) > 70


# ---------------------------------------------------------------- check

def put(tc, j, d):
    """Writes the input files. -> arguments or None"""
    os.makedirs(d, exist_ok=True)
    if j["tool"] == "smlrl":
        fs = linkm.files_of(j["case"])
        for k, (n, b) in enumerate(fs):
            if j["cut"] and k == j["cut"] % len(fs):
                b = b[:j["cut"] // 64 % (len(b) + 1)] if j["cut"] & 1 else b[:(i := j["cut"] // 64 % max(1, len(b)))] + bytes([b[i] ^ (1 + j["cut"] // 7 % 255)]) + b[i + 1:] if b else b
            with open(os.path.join(d, n), "wb") as f:
                f.write(b)
        a = linkm.args_of(j["case"], "x.exe", "x.map" if j["case"].get("map") else None)
        return a[:1] + [n for n, _ in fs] + a[1:]
    if j["tool"] == "n2f":
        with open(os.path.join(d, "t.c"), "w", encoding="latin-1", newline="\n") as f:
            f.write(j["src"])
        r = core.run([tc.tool("smlrc"), "-seg32", "t.c", "t.asm"], cwd=d)
        return j["args"] if r.rc == 0 else None
    for n, t in j["files"].items():
        with open(os.path.join(d, n), "w", encoding="latin-1", newline="\n") as f:
            f.write(t)
    return list(j["args"])


def got(d, j, up=False):
    o = {}
    names = {n.lower(): n for n in os.listdir(d)}
    for n in j["outs"]:
        p = names.get(n)
        o[n] = open(os.path.join(d, p), "rb").read() if p else None
    return o


ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}


def host_run(tc, j, d):
    a = put(tc, j, d)
    if a is None:
        return None, None
    r = core.run([tc.tool(j["tool"]), *a], cwd=d, env=ENV, cpu=10, fsize=16 << 20)
    if r.rc == "wall":
        raise Infra("wall")
    return a, (r.rc, r.out, r.err, got(d, j))


def norm(b):
    return b.replace(b"\r\n", b"\n") if b is not None else None


def compare(tc, host, j, ref, new):
    """-> complaint"""
    crlf = host in ("win", "dosp", "huge")
    text = lambda n: not n.endswith(".exe")
    rc, out, err, fs = new
    named = lambda b: re.sub(rb"(Usage: )\S+", rb"\1it", b)      # the tool names itself by its path
    out, err, ref = named(out), named(err), (ref[0], named(ref[1]), named(ref[2]), ref[3])
    if rc != ref[0]:
        return "exit status %s instead of %s: %s" % (rc, ref[0], (out + err)[-300:].decode("latin-1"))
    n = norm if crlf else (lambda b: b)
    if host == "huge":
        if n(out) != ref[1]:
            return "output %s instead of %s" % diff(n(out), ref[1])
    elif n(out) != ref[1] or n(err) != ref[2]:
        return "messages %s instead of %s" % diff(n(out) + n(err), ref[1] + ref[2])
    for f in j["outs"]:
        a, b = fs[f], ref[3][f]
        if crlf and text(f):
            a = norm(a)
        if rc == 0 and a != b:
            if a is None or b is None:
                return "%s is %s" % (f, "missing" if a is None else "made")
            return "%s differs: %s instead of %s" % ((f,) + diff(a, b))


def diff(a, b):
    i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    s = max(0, i - 60)
    return (repr(a[s:i + 120]), "%r (at byte %d)" % (b[s:i + 120], i))


def check(tc, data, work):
    host, jobs = data["host"], data["items"]
    st = {"evaluations": 0, "by_host": {host: 0}, "by_tool": {}, "by_status": {}, "nontrivial_keys": []}
    refs, args = [], []
    for i, j in enumerate(jobs):
        bad = self_tool(tc, host, j["tool"]) + ".bad"
        if os.path.exists(bad):
            return {"msg": "%s does not compile for %s: %s" % (j["tool"], host, open(bad, errors="replace").read()[:1500])}, {"evaluations": 1}
        a, ref = host_run(tc, j, os.path.join(work, "H%d" % i))
        if ref and not (isinstance(ref[0], int) and ref[0] in (0, 1)):
            ref = None
            st["host_tool_died"] = st.get("host_tool_died", 0) + 1
        args.append(a)
        refs.append(ref)
        if ref:
            st["evaluations"] += 1
            st["by_host"][host] += 1
            st["by_tool"][j["tool"]] = st["by_tool"].get(j["tool"], 0) + 1
            st["by_status"][str(ref[0])] = st["by_status"].get(str(ref[0]), 0) + 1
            if len(json.dumps(j)) > 140:
                st["nontrivial_keys"].append(exprcheck.hash_key(json.dumps([host, j], sort_keys=True)))
    if host == "huge":
        res = dos_run(tc, jobs, refs, args, work)
    else:
        res = []
        for i, j in enumerate(jobs):
            if not refs[i]:
                res.append(None)
                continue
            d = os.path.join(work, "S%d" % i)
            put(tc, j, d)
            exe = self_tool(tc, host, j["tool"])
            if host == "linux":
                r = core.run([exe, *args[i]], cwd=d, env=ENV, cpu=30, fsize=16 << 20)
            else:
                r = targets.run_hosted(tc, exe, d, args[i], cpu=30, env=ENV, fsize=16 << 20)
            if r.rc == "wall":
                raise Infra("wall")
            res.append((r.rc, r.out, r.err, got(d, j)))
    for i, j in enumerate(jobs):
        if refs[i] and res[i]:
            m = compare(tc, host, j, refs[i], res[i])
            if m:
                return {"msg": "%s built by itself for %s, arguments %s: %s\n%s" % (j["tool"], host, " ".join(args[i]), m, j.get("src", j.get("files", {}).get("t.c", ""))[:1500]), "items": [i]}, st
    return None, st


def dos_run(tc, jobs, refs, args, work):
    bat = ["@echo off"]
    for t in {j["tool"] for i, j in enumerate(jobs) if refs[i]}:
        shutil.copy(self_tool(tc, "huge", t), os.path.join(work, t[:8].upper() + ".EXE"))
    for i, j in enumerate(jobs):
        if not refs[i]:
            continue
        put(tc, j, os.path.join(work, "J%d" % i))
        bat += ["cd J%d" % i, "..\\%s.EXE %s > OUT.TXT" % (j["tool"][:8].upper(), " ".join(args[i])), "if errorlevel 1 echo BAD> RC.TXT", "cd .."]
    bat += ["echo DONE> ALL.OK", "exit"]
    with open(os.path.join(work, "RUN.BAT"), "w", newline="\r\n") as f:
        f.write("\n".join(bat) + "\n")
    ok = targets.dosbox(work)
    res = []
    for i, j in enumerate(jobs):
        d = os.path.join(work, "J%d" % i)
        if not refs[i]:
            res.append(None)
            continue
        p = os.path.join(d, "OUT.TXT")
        out = open(p, "rb").read() if os.path.exists(p) else b""
        p = os.path.join(d, "RC.TXT")      # made by the redirection in any case
        bad = os.path.exists(p) and b"BAD" in open(p, "rb").read()
        res.append((1 if bad else 0 if ok else "hung", out, b"", got(d, j)))
    return res


def candidates(data):
    if len(data["items"]) != 1:
        return
    j = data["items"][0]
    if "args" in j and j["tool"] != "n2f":
        for i in range(len(j["args"])):
            if j["args"][i] not in ("t.c", "t.asm"):
                yield {**data, "items": [{**j, "args": j["args"][:i] + j["args"][i + 1:]}]}
    if "files" in j:
        for b in fuzzsrc.halves(j["files"]["t.c"].encode("latin-1")):
            if len(b) < len(j["files"]["t.c"]):
                yield {**data, "items": [{**j, "files": {**j["files"], "t.c": b.decode("latin-1")}}]}
    elif "src" in j:
        for b in fuzzsrc.halves(j["src"].encode("latin-1")):
            if len(b) < len(j["src"]):
                yield {**data, "items": [{**j, "src": b.decode("latin-1")}]}
    elif "case" in j:
        from vlib import linkcheck
        if j["cut"]:
            yield {**data, "items": [{**j, "cut": 0}]}
        else:
            for c in linkcheck.candidates({"case": j["case"]}):
                yield {**data, "items": [{**j, "case": c["case"]}]}


def sample(data):
    j = data["items"][0]
    return {"host": data["host"], "tool": j["tool"], "args": j.get("args"), "source": j.get("files", {}).get("t.c", j.get("src", ""))[:600]}
