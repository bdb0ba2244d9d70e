"""A01: nasm, yasm and (through the converter) fasm make equivalent programs of the compiler's output and of the library."""
import hashlib, importlib, os, re
from vlib import cexpr, cflt, cmem, core, cprog, exprcheck, libcheck, srv, targets
from vlib.core import Infra

ID = "A01"
NEEDS = ("tools", "n2f", "lcl")
QUICK = (1300, 55)
THOROUGH = (50000, 700)
TECHNIQUE = "property-based testing: generated programs and library calls assembled three ways, the nasm build and reference models as oracles"
LEVEL_NOTE = "Random programs, strings, data and inline assembly through three assemblers; the library built with each and driven with generated calls on Linux, Windows, macOS, DPMI and DOS."
RULE = ("Each evaluation is one generated program assembled with nasm, yasm and, for 32-bit code, n2f and fasm, linked and run (16-bit images that come out identical to nasm's are not run), or one generated library call "
        "on a library that yasm or n2f assembled; results must be those of the reference model. A program counts only if its nasm build is right. Non-trivial: at least 4 words; distinct by program.")
ASSUMPTIONS = ["fasm cannot assemble 16-bit code for this linker (documented), nor the Windows import files (nasm syntax) and the macOS heap (memory)", "nasm, yasm and fasm as installed"]
W = {"rd": 4, "wr": 4, "as": 3, "pa": 3, "cp": 3, "fn": 3, "by": 2, "pp": 2, "pq": 2, "pf": 2, "ca": 2, "sz": 1}
LIBMODS = ("B01", "B02", "B03", "B04", "B05", "B08", "B10")
ASMS = ("nasm", "yasm", "n2f")
# words that are reserved in one of the assemblers but plain names in C
WORDS = ["eax", "al", "byte", "dword", "ptr", "seg", "section", "times", "db", "dd", "rb", "resb", "equ", "public", "extrn", "global", "extern_", "bits", "use32", "org", "align", "alignb",
         "mov", "push", "ret", "rep", "lock", "near", "offset", "st0", "mod", "and", "or", "not", "shl", "shr", "xor", "format", "virtual", "label_", "macro", "struc", "end", "repeat", "rva", "at", "dup", "eqtype", "used", "defined", "as", "include", "load", "store", "irp", "match", "forward", "common", "local", "purge", "restore", "fix", "plt", "from", "on", "binary", "display", "err", "writeable", "executable"]
STRS = ["section .text", "; not a comment", "db 1", "it's", 'say "x"', "%define a", "\\", "a\nb", "bits 16", "global _x", "$", "`", "{", "extern", "a;b", " ; ", "#", "%", "'\"'", "\t;", "dd ?", "/", "resb 4", "'", '"', "é", "\x7f", "\0", "%%", "\r\n"]
# inline assembly in the syntax the three have in common, with its effect on eax from the argument
INLINE = [("mov eax, [ebp+8]", lambda a: a), ("mov eax, [ebp+8]\n add eax, 0x10", lambda a: a + 16), ("mov eax, [ebp+8]\n shl eax, 3", lambda a: a << 3),
          ("mov eax, [ebp+8]\n bswap eax", lambda a: int.from_bytes((a & 0xffffffff).to_bytes(4, "little"), "big")),
          ("push dword [ebp+8]\n pop eax ; a comment", lambda a: a), ("movzx eax, byte [ebp+8]", lambda a: a & 255), ("movsx eax, word [ebp+8]", lambda a: ((a & 0xffff) ^ 0x8000) - 0x8000),
          ("lea eax, [ebp+8]\n mov eax, [eax]\n neg eax", lambda a: -a), ("mov eax, [ebp+8]\n cmp eax, 0\n sete al\n movzx eax, al", lambda a: int(a & 0xffffffff == 0)),
          ("mov eax, [ebp+8]\n xor ecx, ecx\n.again:\n inc ecx\n shr eax, 1\n jnz .again\n mov eax, ecx", lambda a: max(1, (a & 0xffffffff).bit_length())),
          ("call .f\n jmp .g\n.f: mov eax, [ebp+8]\n not eax\n ret\n.g:", lambda a: ~a), ("mov eax, [ebp+8]\nsection .data\nalign 4\n_xx%d: dd 7, 8\nsection .text\n add eax, [_xx%d+4]", lambda a: a + 8),
          ("section .bss\nalignb 4\n_yy%d:\n resd 1\n resb 3\n resw 2\nsection .text\n mov eax, [ebp+8]\n mov [_yy%d], eax\n xor eax, eax\n xchg eax, [_yy%d]", lambda a: a),
          ("mov eax, [ebp+8]\n rol eax, 4", lambda a: (a << 4 | (a & 0xffffffff) >> 28)), ("mov eax, [ebp+8]\n imul eax, eax, 10", lambda a: a * 10)]


def setup(tc):
    targets.setup(tc, "linux", "huge", "unreal", "small", "tiny")
    tc.need("lcl", "lcw", "lcdp", "lcm", "lcdh", "lcdu", "lcds")
    targets.oshost(tc)


LT = ["linux@n2f", "linux@yasm", "win@n2f", "win@yasm", "macos@n2f", "macos@yasm", "dosp@n2f", "dosp@yasm"]
DT = ["huge@yasm", "unreal@yasm", "small@yasm"]


def mod(name):
    return importlib.import_module("checks." + name)


def gen(rng, idx, tier):
    if idx % 6 == 1 or idx % 60 == 8:
        t = LT[idx // 6 % len(LT)] if idx % 6 == 1 else DT[idx // 60 % len(DT)]
        while True:
            m = mod(rng.choice(LIBMODS))
            if t.split("@")[0] in getattr(m, "TARGETS", ("small", t.split("@")[0])):
                break
        d = libcheck.gen(rng, m, 60, t)
        return {"kind": "lib", "mod": m.ID, **d}
    t = ["huge", "unreal", "small", "tiny"][idx // 6 % 4] if idx % 6 == 3 else "linux"
    k = rng.random()
    cfg = exprcheck.cfg_of(t, False)
    words = rng.randrange(1, 1 << 30) if rng.random() < 0.4 else 0
    if k < 0.3:
        return {"target": t, "kind": "expr", "words": words, "items": [cexpr.gen_item(rng, cfg, 14) if rng.random() < 0.8 else exprcheck.const_item(rng, cfg, 14) for _ in range(4)]}
    if k < 0.5:
        for _ in range(50):
            p = cprog.PGen(rng, cfg, rng.choice([10, 20, 40, 80])).program()
            try:
                cprog.Interp(cfg, p).run()
            except (cprog.Stop, cexpr.UB):
                continue
            return {"target": t, "kind": "prog", "words": words, "prog": p}
        raise Infra("no terminating program")
    if k < 0.72:
        items = []
        while len(items) < 3:
            u = cmem.MGen(rng, cfg, W).unit()
            try:
                cmem.run_unit(cfg, u, 0)
            except cmem.Bad:
                continue
            items.append(u)
        return {"target": t, "kind": "mem", "words": words, "items": items}
    if k < 0.8 and t == "linux":
        env = cflt.gen_env(rng, False)
        return {"target": t, "kind": "flt", "words": 0, "env": env, "items": [cflt.gen_item(rng, env) for _ in range(15)]}
    items = []
    for _ in range(rng.choice([1, 3, 6])):
        s = b""
        for _ in range(rng.choice([1, 1, 2, 4, 10, 60])):
            s += rng.choice([lambda: rng.choice(STRS).encode("latin-1"), lambda: bytes([rng.randrange(256)]), lambda: bytes([rng.randrange(32, 127)]) * rng.choice([1, 3, 300]), lambda: b"xyz"])()
        items.append({"s": s[:1500].hex(), "st": rng.choice(["lit", "garr", "larr", "ptr"])})
    if t == "linux":
        for _ in range(rng.choice([0, 1, 3])):
            items.append({"asm": rng.randrange(len(INLINE)), "a": rng.choice([0, 1, -1, 0x12345678, rng.randrange(1 << 32)]), "sep": rng.random() < 0.5})
    rng.shuffle(items)
    return {"target": t, "kind": "text", "words": 0, "items": items}


def cstr(b):
    o = ""
    for i, c in enumerate(b):
        ch = chr(c)
        if ch in '"\\':
            o += "\\" + ch
        elif 32 <= c < 127 and ch != "?":
            o += ch
        else:
            o += "\\%03o" % c
    return '"%s"' % o


def text_program(t, items):
    src, body, exp = ["void out(unsigned);\n"], [], []
    m = 0xffff if targets.TARGETS[t].isz == 2 else 0xffffffff
    src.append("void puts_(char *p, int n)\n{\n unsigned h = 0;\n while (n--)\n {\n  h = h * 31u + (*p++ & 255);\n }\n out(h);\n}\n")
    for k, it in enumerate(items):
        if "s" in it:
            b = bytes.fromhex(it["s"])
            h = 0
            for c in b + b"\0":
                h = (h * 31 + c) & m
            exp += [h, len(b) + 1]
            lit = cstr(b)
            if it["st"] == "lit":
                body.append("puts_(%s, %d); out(sizeof %s);" % (lit, len(b) + 1, lit))
            else:
                d = ("char *s%d = %s;" if it["st"] == "ptr" else "char s%d[] = %s;") % (k, lit)
                (body if it["st"] == "larr" else src).append(d + "\n")
                body.append("puts_(s%d, %d); out(%s);" % (k, len(b) + 1, "sizeof s%d" % k if it["st"] != "ptr" else str(len(b) + 1)))
        else:
            a, f = INLINE[it["asm"]]
            a = a.replace("%d", str(k))
            s = "".join(' asm("%s");\n' % l for l in a.split("\n")) if it["sep"] else ' asm("%s");\n' % a.replace("\n", "\\n")
            src.append("int a%d(int x)\n{\n%s}\n" % (k, s))
            body.append("out(a%d(%du));" % (k, it["a"] & 0xffffffff))
            exp.append(f(it["a"]) & 0xffffffff)
    src.append("int main(void)\n{\n" + "\n".join(body) + "\nreturn 0;\n}\n")
    return "".join(src), exp


def source(data):
    t, k = data["target"], data["kind"]
    cfg = exprcheck.cfg_of(t, False)
    if k == "prog":
        src, exp = cprog.render(cfg, data["prog"]), cprog.Interp(cfg, data["prog"]).run()
    elif k == "flt":
        src, exp = cflt.program(data)
    elif k == "text":
        src, exp = text_program(t, data["items"])
    else:
        src, exp = (cmem if k == "mem" else cexpr).program(cfg, data["items"])
        exp = [w for x in exp for w in x]
    if data.get("words"):
        import random
        rng = random.Random(data["words"])
        ws = list(WORDS)
        rng.shuffle(ws)
        from checks.C15 import rename, idents
        ids = sorted(w for w in idents(src) if not re.match(r"main|L\d+", w) and w != "out")
        rng.shuffle(ids)
        m = dict(zip(ids[:10], ws))
        src = rename(src, lambda w: m.get(w, w))
    return src, exp


def same(exp, got):
    from vlib import f32
    return len(exp) == len(got) and all((isinstance(g, int) and f32.is_nan(g)) if w == "nan" else w == g for w, g in zip(exp, got))


def check(tc, data, work):
    if data["kind"] == "lib":
        t, _, a = data["target"].partition("@")
        try:
            srv.setup(tc, data["target"])
        except targets.Step as s:
            return {"msg": "the library or the server cannot be built with %s: %s" % (a, s)}, {"evaluations": 1}
        f, st = libcheck.check(mod(data["mod"]))(tc, data, work)
        st["by_target"] = {data["target"]: st.get("evaluations", 0)}
        st["kinds"] = {"lib " + data["mod"]: st.get("evaluations", 0)}
        if f:
            # the same calls on the library as nasm assembles it
            srv.setup(tc, t)
            w2 = os.path.join(work, "nasm")
            os.makedirs(w2)
            if libcheck.check(mod(data["mod"]))(tc, {**data, "target": t}, w2)[0]:
                return None, {"nasm_build_also_wrong": 1}
        return f, st
    t = data["target"]
    try:
        src, exp = source(data)
    except (cprog.Stop, cmem.Bad, IndexError, KeyError, cexpr.UB, cflt.UB):
        return None, {}
    st = {"evaluations": 1, "by_target": {t: 1}, "kinds": {data["kind"]: 1}, "nontrivial_keys": [hashlib.md5(src.encode("latin-1")).hexdigest()[:12]] if len(exp) >= 4 else []}
    d = os.path.join(tc.dir, "rt")
    try:
        if t in ("huge", "unreal"):
            with open(os.path.join(work, "out_.c"), "w") as f:
                f.write(targets.OUT_C)
            targets._do("smlrcc", [tc.tool("smlrcc"), "-dos" + t[0], "-c", "out_.c", "-o", "out_.o"], work, tc.env())
        asm = targets.smlrc(tc, t, src, work, "t")
    except targets.Step:
        return None, {"not_compiled": 1}
    res = {}
    for a in ASMS:
        if a == "n2f" and t != "linux":
            continue
        obj, exe = os.path.join(work, a + ".o"), os.path.join(work, a.upper() + ".EXE")
        try:
            tool = tc.tool("n2f") if a == "n2f" else a
            targets._do(a, [tool, "-f", "elf", asm, "-o", obj], work, tc.env(), cpu=60)
            if t == "linux":
                targets.link_linux(tc, [obj, d + "/rt32.o"] + ([tc.lib + "/lcl.a"] if data["kind"] == "flt" else []), work, exe)
            elif t in ("tiny", "small"):
                exe = exe if t == "small" else exe[:-3] + "COM"
                targets._do("smlrl", [tc.tool("smlrl"), "-" + t, obj, d + "/rt16.o", "-o", exe], work)
            else:
                targets._do("smlrcc", [tc.tool("smlrcc"), "-dos" + t[0], a + ".o", "out_.o", "-o", exe], work, tc.env())
        except targets.Step as s:
            if a == "nasm":
                return None, {"nasm_build_fails": 1}
            return {"msg": "%s: nasm assembles the program, but %s\n%s" % (t, s, src[:5000])}, st
        with open(exe, "rb") as f:
            img = f.read()
        if t == "linux":
            r = targets.run_native(exe, work)
            if r.rc == "wall":
                raise Infra("wall")
            got, err = targets.parse_words(r.out), None if r.rc == 0 else "program ended with %s" % r.rc
        elif a == "nasm":
            res[a] = img
            continue
        elif img == res["nasm"]:
            st["identical_images"] = 1
            continue
        else:
            names = [os.path.basename(exe), os.path.basename(exe).replace("YASM", "NASM")]
            o = targets.run_dos(work, names)
            st["dos_runs"] = 1
            if o[names[1]] is None or not same(exp, targets.parse_words(o[names[1]])):
                return None, {"nasm_build_also_wrong": 1}
            got, err = targets.parse_words(o[names[0]] or b""), None if o["ok"] else "DOS program did not return"
        if err or not same(exp, got):
            if a == "nasm":
                return None, {"nasm_build_also_wrong": 1}
            n = next((i for i in range(min(len(exp), len(got))) if exp[i] != got[i]), min(len(exp), len(got)))
            return {"msg": "%s: assembled with %s, word %d: expected %s, got %s %s\n%s" % (t, a, n, exp[n:n + 5], got[n:n + 5], err or "", src[:6000])}, st
    return None, st


def candidates(data):
    if data["kind"] == "lib":
        if len(data["items"]) == 1:
            for c in mod(data["mod"]).simpler(data["items"][0]):
                yield {**data, "items": [c]}
        else:
            h = len(data["items"]) // 2
            yield {**data, "items": data["items"][:h]}
            yield {**data, "items": data["items"][h:]}
        return
    if data.get("words"):
        yield {**data, "words": 0}
    from vlib import memcheck, progcheck
    k = data["kind"]
    if k == "text":
        for i, it in enumerate(data["items"]):
            if "s" in it and len(it["s"]) > 2:
                h = len(it["s"]) // 4 * 2
                for s in (it["s"][:h], it["s"][h:], it["s"][2:], it["s"][:-2]):
                    yield {**data, "items": data["items"][:i] + [{**it, "s": s}] + data["items"][i + 1:]}
    else:
        for c in {"prog": progcheck, "mem": memcheck, "flt": cflt}.get(k, exprcheck).candidates({**data, "uchar": False}):
            yield {**data, **{x: c[x] for x in ("items", "prog") if x in c}}


def sample(data):
    if data["kind"] == "lib":
        return {"target": data["target"], "items": [mod(data["mod"]).show(x) for x in data["items"][:3]]}
    try:
        return {"target": data["target"], "source": source(data)[0][:1500]}
    except Exception:
        return {}
