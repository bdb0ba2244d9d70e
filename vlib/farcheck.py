"""Large objects in the huge and unreal memory models: copies, indexing and pointer walks across 64 KB boundaries,
against byte arrays in this process."""
import hashlib
from . import cexpr, exprcheck

SIZES = [1, 2, 3, 15, 16, 17, 40, 255, 4096, 32767, 32768, 32769, 40000, 65519, 65520, 65535, 65536, 65537, 65552, 70000, 98303, 98304, 98305,
         131071, 131072, 131073, 140000]
CT = {1: ["char", "unsigned char", "signed char"], 2: ["short", "unsigned short"], 4: ["int", "unsigned", "long"]}


def gen(rng, target, n=3):
    items = []
    for _ in range(n):
        room = 110000 if n > 1 else 330000
        objs, types = [], []
        for k in range(rng.randrange(1, 3)):
            es = rng.choice([1, 1, 2, 4, 4])
            sz = rng.choice(SIZES) if rng.random() < 0.8 else rng.randrange(1, 100000)
            types.append({"es": es, "n": max(1, sz // es), "lead": rng.choice([0, 0, 1, 2, 3]), "ct": rng.choice(CT[es]), "tail": rng.choice([0, 0, 1])})
        for k in range(rng.randrange(2, 4)):
            t = rng.randrange(len(types))
            s = tsize(types[t])
            if room >= s + 70:
                room -= s + 70
                objs.append({"t": t, "pad": rng.choice([1, 2, 3, 4, 5, 7, 8, 13, 16, 31])})
        if not objs:
            objs = [{"t": 0, "pad": 3}]
            types[0]["n"] = min(types[0]["n"], 20000)
        ops = [["fill", k, rng.randrange(1 << 16)] for k in range(len(objs))]
        for _ in range(rng.randrange(3, 9)):
            k, j = rng.randrange(len(objs)), rng.randrange(len(objs))
            c = rng.choice(["cp", "cp", "cp", "wr", "wr", "rd", "walk", "diff", "inc", "sum"])
            if c == "cp":
                if objs[k]["t"] == objs[j]["t"]:
                    ops.append([c, k, j, rng.randrange(4)])
            elif c in ("wr", "rd", "inc"):
                ops.append([c, k, index(rng, types[objs[k]["t"]]), rng.randrange(4), rng.randrange(1 << 32)])
            elif c == "sum":
                ops.append([c, k])
            else:
                T = types[objs[k]["t"]]
                ops.append([c, k, index(rng, T), index(rng, T), rng.randrange(2)])
        items.append({"types": types, "objs": objs, "ops": ops})
    return {"target": target, "kind": "far", "items": items}


def index(rng, T):
    n = T["n"]
    i = rng.choice([0, n - 1, rng.randrange(n), 65536 // T["es"] + rng.randrange(-3, 3), 32768 // T["es"] + rng.randrange(-3, 3), 131072 // T["es"] - 1])
    return i if 0 <= i < n else rng.randrange(n)


def tsize(T):
    return T["lead"] + T["es"] * T["n"] + T["tail"]


def unit(u, uid):
    """-> text, call, expected"""
    o, code, exp = ["#pragma pack(1)\n"], [], []
    for k, T in enumerate(u["types"]):
        o.append("struct F%d_%d{%s%s a[%d];%s};\n" % (uid, k, "char c[%d];" % T["lead"] if T["lead"] else "", T["ct"], T["n"], "char e;" if T["tail"] else ""))
    o.append("#pragma pack()\n")
    mem, nm = [], []
    for k, x in enumerate(u["objs"]):
        o.append("char q%d_%d[%d];struct F%d_%d g%d_%d;char r%d_%d[16];\n" % (uid, k, x["pad"], uid, x["t"], uid, k, uid, k))
        mem.append(bytearray(tsize(u["types"][x["t"]])))
        nm.append("g%d_%d" % (uid, k))

    def summ(k):
        s = 0
        for b in mem[k]:
            s = (s * 33 + b) & 0xffffffff
        code.append("out(summ((unsigned char*)&%s,sizeof %s));" % (nm[k], nm[k]))
        exp.append(s)
    for op in u["ops"]:
        c, k = op[0], op[1]
        T = u["types"][u["objs"][k]["t"]]
        es, st = T["es"], "struct F%d_%d" % (uid, u["objs"][k]["t"])
        if c == "fill":
            s, b = op[2], mem[k]
            for i in range(len(b)):
                s = (s * 1103515245 + 12345) & 0xffffffff
                b[i] = s >> 16 & 255
            code.append("fill((unsigned char*)&%s,sizeof %s,%du);" % (nm[k], nm[k], op[2]))
        elif c == "sum":
            summ(k)
        elif c == "cp":
            j = op[2]
            code.append([("%s=%s;" % (nm[k], nm[j])), "{%s*p=&%s,*q=&%s;*p=*q;}" % (st, nm[k], nm[j]), "{%s*p=&%s;%s*q=&%s;out((*p=*q).a[0]);}" % (st, nm[k], st, nm[j]),
                         "{%s*p=&%s+1,*q=&%s-1;p[-1]=*++q;}" % (st, nm[k], nm[j])][op[3]])
            mem[k][:] = mem[j]
            if op[3] == 2:
                exp.append(rd(T, mem[k], 0))
            summ(k)
        elif c in ("rd", "wr", "inc"):
            i, f, v = op[2], op[3], op[4]
            off = T["lead"] + i * es
            lv = ["%s.a[%d]" % (nm[k], i), "(&%s)->a[i]" % nm[k], "(*(%s.a+i))" % nm[k], "((%s*)((char*)&%s+%d))[0]" % (T["ct"], nm[k], off)][f]
            pre = "{int i=%d;" % i
            if c == "wr":
                code.append(pre + "%s=0x%xu;}" % (lv, v))
                mem[k][off:off + es] = (v & ((1 << 8 * es) - 1)).to_bytes(es, "little")
                summ(k)
            elif c == "inc":
                old = int.from_bytes(mem[k][off:off + es], "little")
                opn, d = [("++", 1), ("--", -1), (" += 77", 77), (" ^= 0x5a", None)][v & 3]
                new = old ^ 0x5a if d is None else old + d
                mem[k][off:off + es] = (new & ((1 << 8 * es) - 1)).to_bytes(es, "little")
                code.append(pre + "%s%s;out(%s);}" % (lv, opn, lv))
                exp.append(rd(T, mem[k], i))
            else:
                code.append(pre + "out(%s);}" % lv)
                exp.append(rd(T, mem[k], i))
        elif c == "walk":
            i, j = op[2], op[3]
            code.append("{%s*p=%s.a+%d;int d=%d;%s;out(*p);}" % (T["ct"], nm[k], i, j - i, ["p+=d", "p-=-d"][op[4]]))
            exp.append(rd(T, mem[k], j))
        elif c == "diff":
            i, j = op[2], op[3]
            code.append("{%s*p=%s.a+%d,*q=&%s.a[%d];out(p-q);out(p<q);out(p==q);}" % (T["ct"], nm[k], i, nm[k], j))
            exp += [(i - j) & 0xffffffff, int(i < j), int(i == j)]
    for k in range(len(mem)):
        summ(k)
        x = u["objs"][k]["pad"]
        code.append("out(summ((unsigned char*)q%d_%d,%d)+summ((unsigned char*)r%d_%d,16));" % (uid, k, x, uid, k))
        exp.append(0)
    o.append("void unit%d(void)\n{\n%s\n}\n" % (uid, "\n".join(code)))
    return "".join(o), "unit%d();" % uid, exp


def rd(T, b, i):
    off = T["lead"] + i * T["es"]
    return int.from_bytes(b[off:off + T["es"]], "little", signed=not T["ct"].startswith("unsigned")) & 0xffffffff


def program(items):
    src = ["void out(unsigned);\nunsigned summ(unsigned char*p,unsigned n){unsigned s=0;while(n--)s=s*33+*p++;return s;}\n"
           "void fill(unsigned char*p,unsigned n,unsigned s){while(n--){s=s*1103515245u+12345;*p++=s>>16;}}\n"]
    calls, exp = [], []
    for k, u in enumerate(items):
        t, c, x = unit(u, k)
        src.append(t)
        calls.append("out(238);" + c)
        exp.append([238] + x)
    return "".join(src) + "int main(void){%sreturn 0;}\n" % "".join(calls), exp


def check(tc, data, work):
    src, exp = program(data["items"])
    keys = [hashlib.md5(repr(u).encode()).hexdigest()[:12] for u in data["items"] if any(tsize(t) > 65536 for t in u["types"])]
    st = {"evaluations": len(data["items"]), "nontrivial_keys": keys, "by_target": {data["target"]: len(data["items"])}}
    got, err = exprcheck.run_target(tc, data["target"], src, work)
    if got is None:
        return {"msg": err + "\n" + src[:4000]}, st
    bad = cexpr.first_bad(exp, got)
    if bad or err:
        k, want, have = bad or (0, [], [])
        n = next((i for i in range(min(len(want), len(have))) if want[i] != have[i]), 0)
        return {"msg": "%s: unit %d word %d: expected %s, got %s %s\n%s" % (data["target"], k, n, exprcheck.hexs(want[n:n + 6]), exprcheck.hexs(have[n:n + 6]), err,
                                                                          program([data["items"][k]])[0][:4000]), "items": [k]}, st
    return None, st


def candidates(data):
    if len(data["items"]) == 1:
        u = data["items"][0]
        for i in range(len(u["ops"])):
            yield {**data, "items": [{**u, "ops": u["ops"][:i] + u["ops"][i + 1:]}]}


def sample(data):
    s, x = program(data["items"])
    return {"target": data["target"], "source": s[:2500], "expected": exprcheck.hexs(x[0][:20])}
