"""Links generated objects with the tree's smlrl and judges the result against vlib/linkm's reference rules."""
import os, re, struct

from . import core, linkm
from .linkm import ALLOC, WRITE, EXEC, PROGBITS, NOBITS, ABS32, PC32, ABS16, PC16, WIDTH, Bad


def link(tc, case, work, tag="x", origin=None, extra=(), files=None, cpu=20):
    """-> (Result, exe bytes or None, map text or None)"""
    names = []
    for n, b in files if files is not None else linkm.files_of(case):
        with open(os.path.join(work, n), "wb") as f:
            f.write(b)
        names.append(n)
    exe, mp = tag + ".exe", tag + ".map"
    for n in (exe, mp):
        if os.path.exists(os.path.join(work, n)):
            os.unlink(os.path.join(work, n))
    a = linkm.args_of(case, exe, mp if case.get("map") else None, origin) + list(extra)
    if case.get("at"):
        with open(os.path.join(work, tag + ".rsp"), "w") as f:
            f.write("\n".join(a[:3]) + "\n" + " \t".join(names) + "\n\n" + " ".join(a[3:]) + "\n")
        cmd = ["@" + tag + ".rsp"]
    else:
        cmd = a[:1] + names + a[1:]
    r = core.run([tc.bin + "/smlrl"] + cmd, cwd=work, cpu=cpu)
    b = m = None
    p = os.path.join(work, exe)
    if os.path.exists(p):
        with open(p, "rb") as f:
            b = f.read()
    p = os.path.join(work, mp)
    if os.path.exists(p):
        with open(p, "rb") as f:
            m = f.read().decode("latin-1")
    return r, b, m


class Judge:
    def __init__(self, case, exe, mp=None, stub=None):
        self.case, self.exe, self.map, self.fails = case, exe, mp, []
        self.m = linkm.Model(case)
        self.stats = {"pieces": 0, "fields": 0, "bss": 0, "startstop": 0, "map": 0}
        self.addr = {}                 # (obj, sec) -> address
        self.fmt = case["fmt"]
        try:
            self.img = linkm.load(case, exe, stub)
        except Bad as e:
            self.fail("load", str(e))
            self.img = None
        except (struct.error, IndexError, ValueError) as e:
            self.fail("load", "truncated or malformed: %s" % e)
            self.img = None

    def fail(self, cat, msg):
        self.fails.append((cat, msg))

    def space(self, s):
        if self.fmt != "small":
            return ""
        return "c" if s["f"] & EXEC else "d"

    def sec(self, p):
        return self.m.objs[p[0]]["secs"][p[1]]

    def pname(self, p):
        return "%s of object %d" % (self.sec(p)["n"], p[0])

    def locate(self):
        m, img = self.m, self.img
        pending = []
        for name in m.names:
            for p in m.pieces(name):
                self.stats["pieces"] += 1
                s = self.sec(p)
                if s["t"] == PROGBITS and s["sz"] >= 8:
                    mk = linkm.piece_bytes(s)[:8]
                    hits = []
                    for g in img.segs:
                        k = g.data.find(mk)
                        while k >= 0:
                            hits.append((g.space, g.addr + k))
                            k = g.data.find(mk, k + 1)
                    if len(hits) != 1:
                        self.fail("content", "%s is in the image %d times" % (self.pname(p), len(hits)))
                    elif hits[0][0] != self.space(s):
                        self.fail("content", "%s is in the wrong segment" % self.pname(p))
                    else:
                        self.addr[p] = hits[0][1]
                else:
                    pending.append(p)
        self.given = set()
        for p in pending:
            w = 2 if self.fmt in linkm.F16 else 4
            for j, s in enumerate(m.objs[p[0]]["secs"]):
                for k, (off, ref, ty, add) in enumerate(s["rels"]):
                    if p not in self.addr and ref == ["s", p[1]] and ty in (ABS16, ABS32) and WIDTH[ty] == w and add == 0 and (p[0], j) in self.addr:
                        b = img.read(self.space(s), self.addr[(p[0], j)] + off, w)
                        if b is not None:
                            self.addr[p] = int.from_bytes(b, "little")
                            self.given.add((p[0], j, k))

    def bounds(self, name):
        ps = self.m.pieces(name)
        if any(p not in self.addr for p in ps):
            return None, None
        return (min(self.addr[p] for p in ps), max(self.addr[p] + self.sec(p)["sz"] for p in ps)) if ps else (None, None)

    def combined(self, code):
        bs = [self.bounds(n) for n, v in self.m.names.items() if bool(list(v)[0][0] & EXEC) == code]
        if self.fmt == "unreal" and not code:
            bs.append(self.relod() or (None, None))
        if any(b[0] is None for b in bs):
            return None, None
        return (min(b[0] for b in bs), max(b[1] for b in bs)) if bs else (None, None)

    def relod(self):
        """Bounds of the table the linker makes for the unreal model, as the program sees them."""
        if self.fmt != "unreal":
            return None
        v = {}
        for i in self.m.needed:
            for j, s in enumerate(self.m.objs[i]["secs"]):
                for k, (off, ref, ty, add) in enumerate(s["rels"]):
                    if ref[0] == "g" and ref[1] in ("__start__relod", "__stop__relod") and ty == ABS32 and add == 0 and (i, j) in self.addr:
                        b = self.img.read("", self.addr[(i, j)] + off, 4)
                        if b:
                            v.setdefault(ref[1], int.from_bytes(b, "little"))
                            self.given.add((i, j, k))
        if len(v) == 2:
            return v["__start__relod"], v["__stop__relod"]
        return None

    def symbol(self, name):
        for i in sorted(self.m.needed):
            for d in self.m.objs[i]["defs"]:
                if d[0] == name:
                    p = (i, d[1])
                    return self.addr[p] + d[2] if p in self.addr else None
        stop = name.startswith("__stop_")
        base = name[7:] if stop else name[8:]
        if self.fmt == "unreal" and base == "_relod":
            b = self.relod() or (None, None)
        elif self.m.section_of(base):
            b = self.bounds(self.m.section_of(base))
        elif base == "allcode__":
            b = self.combined(True)
        elif base == "alldata__":
            b = self.combined(False)
        elif base == "stack__":
            st = self.case.get("stack") or 8192
            b = (0xFFFC - st, 0xFFFC)
        else:
            b = (None, None)
        return b[stop]

    def target(self, i, ref):
        if ref[0] == "0":
            return 0
        if ref[0] == "s":
            return self.addr.get((i, ref[1]))
        if ref[0] == "l":
            n, s, v = self.m.objs[i]["loc"][ref[1]]
            a = self.addr.get((i, s))
            return None if a is None else a + v
        return self.symbol(ref[1])

    def fields(self):
        """(piece, k, offset, address, type, ref, addend) of every field in the image."""
        for i in sorted(self.m.needed):
            for j, s in enumerate(self.m.objs[i]["secs"]):
                if s["f"] & ALLOC and s["t"] == PROGBITS and (i, j) in self.addr:
                    for k, (off, ref, ty, add) in enumerate(s["rels"]):
                        yield (i, j), k, off, self.addr[(i, j)] + off, ty, ref, add

    def dll(self, s):
        return self.fmt == "pe" and (s["n"].startswith(".dll_import") or s["n"].startswith(".dll_iat"))

    def check_fields(self):
        for p, k, off, a, ty, ref, add in self.fields():
            w = WIDTH[ty]
            got = self.img.read(self.space(self.sec(p)), a, w)
            t = self.target(p[0], ref)
            if got is None or t is None:
                continue
            want = (add + t - (a if ty in (PC32, PC16) else 0)) & ((1 << 8 * w) - 1)
            got = int.from_bytes(got, "little")
            self.stats["startstop"] += ref[0] == "g" and ref[1].startswith(("__start_", "__stop_"))
            self.stats["fields"] += (p[0], p[1], k) not in self.given
            if got != want:
                self.fail("startstop" if ref[0] == "g" and ref[1].startswith(("__start_", "__stop_")) and ref[1] != self.case["entry"] else "reloc", "the field at offset 0x%x of %s (type %d, %s, addend 0x%x, address 0x%x, symbol at 0x%x) holds 0x%x instead of 0x%x" %
                          (off, self.pname(p), ty, ref, add, a, t, got, want))

    def check_content(self):
        for name in self.m.names:
            for p in self.m.pieces(name):
                s = self.sec(p)
                if p not in self.addr:
                    if s["t"] == PROGBITS and s["sz"] >= 8:
                        continue
                    continue
                a = self.addr[p]
                if s["sz"] == 0:
                    continue
                got = self.img.read(self.space(s), a, s["sz"])
                if got is None:
                    self.fail("content", "%s at 0x%x lies outside the image" % (self.pname(p), a))
                    continue
                if s["t"] == NOBITS:
                    self.stats["bss"] += 1
                    if any(got):
                        self.fail("content", "%s at 0x%x does not read as zero" % (self.pname(p), a))
                    continue
                want = bytearray(linkm.piece_bytes(s))
                got = bytearray(got)
                for off, ref, ty, add in s["rels"]:
                    want[off:off + WIDTH[ty]] = got[off:off + WIDTH[ty]]
                if want != got:
                    d = next(i for i in range(len(want)) if want[i] != got[i])
                    self.fail("content", "%s differs from the object at offset 0x%x: %s instead of %s" %
                              (self.pname(p), d, bytes(got[d:d + 8]).hex(), bytes(want[d:d + 8]).hex()))
                g = self.img.seg_at(self.space(s), a)
                if g:
                    if s["f"] & EXEC and not g.perm & 1:
                        self.fail("load", "%s is in a segment that is not executable" % self.pname(p))
                    if s["f"] & WRITE and not g.perm & 2:
                        self.fail("load", "%s is in a segment that is not writable" % self.pname(p))
        for i in set(range(len(self.m.objs))) - self.m.needed:
            for s in self.m.objs[i]["secs"]:
                if s["t"] == PROGBITS and s["sz"] >= 8 and linkm.piece_bytes(s)[:8] in self.exe:
                    self.fail("members", "object %d is not needed but its section %s is in the executable" % (i, s["n"]))

    def check_layout(self):
        m = self.m
        order = m.order()
        if self.fmt == "unreal" and self.relod():
            m2 = dict(m.names)
            if ".relod" not in m2:
                m.names[".relod"] = {(0, False)}
                order = m.order()
                del m.names[".relod"]
        prev = {}
        for name in order:
            ps = m.pieces(name)
            if name == ".relod" and not ps:
                b = self.relod()
                sp = ""
                if sp in prev and b[0] < prev[sp][0]:
                    self.fail("layout", "section .relod at 0x%x comes before %s, which ends at 0x%x" % (b[0], prev[sp][1], prev[sp][0]))
                if b[0] % 4:
                    self.fail("layout", ".relod is not aligned")
                prev[sp] = (b[1], ".relod")
                continue
            last = None
            for p in ps:
                s = self.sec(p)
                sp = self.space(s)
                if p not in self.addr:
                    last = None
                    continue
                a, al = self.addr[p], m.align(s)
                if a % al:
                    self.fail("layout", "%s at 0x%x is not aligned to %d" % (self.pname(p), a, al))
                if last is not None and not (last <= a < last + al):
                    self.fail("layout", "%s is at 0x%x, but the piece before it ends at 0x%x and the alignment is %d" % (self.pname(p), a, last, al))
                if last is None and sp in prev and a < prev[sp][0]:
                    self.fail("layout", "section %s at 0x%x comes before %s, which ends at 0x%x" % (name, a, prev[sp][1], prev[sp][0]))
                last = a + s["sz"]
                prev[sp] = (last, name)

    def check_entry(self):
        e = self.symbol(self.case["entry"])
        if e is None:
            return
        sp, at = self.img.entry
        if self.fmt in ("flat16", "flat32", "tiny"):
            if at != e:
                w = 4 if self.fmt == "flat32" else 2
                b = self.img.read("", at, 1 + w)
                t = None
                if b and b[0] == 0xE9:
                    t = (at + 1 + w + int.from_bytes(b[1:], "little")) & ((1 << 8 * w) - 1)
                if t != e & ((1 << 8 * w) - 1):
                    self.fail("load", "the first instruction at 0x%x does not lead to the entry point at 0x%x" % (at, e))
        elif at != e:
            self.fail("load", "the entry point is 0x%x, the symbol %s is at 0x%x" % (at, self.case["entry"], e))

    def check_startstop(self):
        pass

    def check_map(self):
        if not self.map:
            return
        secs, cur = {}, None
        syms = {}
        for line in self.map.splitlines():
            q = re.match(r" +([0-9A-F]{8})  section (.*):$", line)
            if q:
                cur = q.group(2)
                if cur in secs:
                    self.fail("map", "section %s is listed twice" % cur)
                secs[cur] = [int(q.group(1), 16), None]
                continue
            q = re.match(r" +([0-9A-F]{8})$", line)
            if q and cur:
                secs[cur][1] = int(q.group(1), 16)
                continue
            q = re.match(r"([0-9A-F]{8})  ([0-9A-F]{8})  (\S+)$", line)
            if q:
                syms[q.group(3)] = (int(q.group(1), 16), int(q.group(2), 16), cur)
        want = [n for n in self.m.order()]
        got = [n for n in secs if n != ".relod" or ".relod" in self.m.names]
        if got != want:
            self.fail("map", "the map lists the sections %s instead of %s" % (got, want))
        for n in want:
            if n in secs:
                self.stats["map"] += 1
                b = self.bounds(n)
                if all(p in self.addr for p in self.m.pieces(n)) and tuple(secs[n]) != b:
                    self.fail("map", "the map says that %s is at %s, it is at %s" % (n, secs[n], list(b)))
        for i in sorted(self.m.needed):
            for d in self.m.objs[i]["defs"]:
                s = self.m.objs[i]["secs"][d[1]]
                if not s["f"] & ALLOC:
                    continue
                if d[0] not in syms:
                    self.fail("map", "symbol %s is not in the map" % d[0])
                    continue
                fo, a, sec = syms[d[0]]
                self.stats["map"] += 1
                t = self.symbol(d[0])
                if t is not None and a != t:
                    self.fail("map", "the map says that %s is at 0x%x, it is at 0x%x" % (d[0], a, t))
                if sec != s["n"]:
                    self.fail("map", "the map lists %s in %s instead of %s" % (d[0], sec, s["n"]))
                if s["t"] == PROGBITS and d[2] < s["sz"] and (i, d[1]) in self.addr:
                    n = min(16, s["sz"] - d[2])
                    mem = self.img.read(self.space(s), self.addr[(i, d[1])] + d[2], n)
                    if mem != self.exe[fo:fo + n]:
                        self.fail("map", "the map says that %s is at 0x%x in the file, the bytes there are others" % (d[0], fo))

    def judge(self):
        if self.img is None:
            return self.fails
        self.locate()
        self.relod()
        self.check_content()
        self.check_fields()
        self.check_layout()
        self.check_entry()
        self.check_map()
        return self.fails


def rejected(case):
    """True where the rules of the documentation make the link an error (L04's business) ."""
    m = linkm.Model(case)
    return bool(m.undefined or m.duplicate or m.inconsistent or m.nocode or m.badstart - {"__start__relod", "__stop__relod"})


LIMITS = ("Too much code", "Too big stack", "Executable too big", "'__start__relod' not found", "'__stop__relod' not found")


def judge_one(tc, case, work, cats, tag="x", extra=()):
    """-> (fail or None, stats, Judge or None)"""
    if rejected(case):
        return None, {"rejected": 1}, None
    r, exe, mp = link(tc, case, work, tag, extra=extra)
    msg = (r.out + r.err).decode("latin-1")
    if r.rc != 0 or exe is None:
        if r.rc == 1 and any(t in msg for t in LIMITS):
            return None, {"toobig": 1}, None
        return {"msg": "smlrl -%s failed on valid objects: rc=%s %s" % (case["fmt"], r.rc, msg[-300:]), "cat": "refused"}, {}, None
    j = Judge(case, exe, mp)
    fails = [f for f in j.judge() if f[0] in cats]
    if fails:
        return {"msg": "-%s: " % case["fmt"] + "; ".join("%s: %s" % f for f in fails[:3]), "cat": fails[0][0]}, {}, j
    return None, dict(j.stats, ok=1), j


def sample(data):
    c = data["case"]
    return {"format": c["fmt"], "options": linkm.args_of(c, "x.exe"), "objects": [
        {"sections": [[s["n"], s["sz"], s["al"], len(s["rels"])] for s in o["secs"]], "defines": [d[0] for d in o["defs"]], "undefined": o["und"]}
        for o in objects(c)]}


# ---------------------------------------------------------------- shrinking

def objects(case):
    for inp in case["inputs"]:
        for o in ([inp["obj"]] if inp["kind"] == "o" else inp["members"]):
            yield o


def candidates(data):
    """Smaller cases: fewer options, objects, relocations, sections, symbols."""
    import copy
    c0 = data
    case = data.get("case", data)

    def mk(c):
        if "case" in c0:
            d = dict(c0)
            d["case"] = c
            return d
        return c
    for k in range(len(case["opts"])):
        c = copy.deepcopy(case)
        del c["opts"][k]
        yield mk(c)
    for key in ("origin", "stack"):
        if case.get(key) is not None:
            c = copy.deepcopy(case)
            c[key] = None
            yield mk(c)
    for key in ("at", "map"):
        if case.get(key):
            c = copy.deepcopy(case)
            c[key] = False
            yield mk(c)
    if any(i["kind"] == "a" for i in case["inputs"]):
        c = copy.deepcopy(case)
        c["inputs"] = [{"kind": "o", "obj": o} for o in objects(c)]
        yield mk(c)
    n = len(case["inputs"])
    for k in range(n):
        c = copy.deepcopy(case)
        del c["inputs"][k]
        if drop_dangling(c):
            yield mk(c)
    no = len(list(objects(case)))
    for k in range(no):
        o = list(objects(case))[k]
        nr = sum(len(s["rels"]) for s in o["secs"])
        for lo, hi in [(0, nr), (0, nr // 2), (nr // 2, nr)] if nr > 1 else ([(0, 1)] if nr else []):
            c = copy.deepcopy(case)
            o2 = list(objects(c))[k]
            q = 0
            for s in o2["secs"]:
                keep = []
                for r in s["rels"]:
                    if not lo <= q < hi:
                        keep.append(r)
                    q += 1
                s["rels"] = keep
            yield mk(c)
        for n2 in list(o["und"]):
            c = copy.deepcopy(case)
            o2 = list(objects(c))[k]
            o2["und"].remove(n2)
            for s in o2["secs"]:
                s["rels"] = [r for r in s["rels"] if r[1] != ["g", n2]]
            yield mk(c)
        for d in o["defs"]:
            if d[0] == case["entry"]:
                continue
            c = copy.deepcopy(case)
            o2 = list(objects(c))[k]
            o2["defs"].remove(d)
            if drop_dangling(c):
                yield mk(c)
        for i in range(len(o["secs"])):
            c = copy.deepcopy(case)
            o2 = list(objects(c))[k]
            if any(d[1] == i for d in o2["defs"] + o2["loc"]):
                continue
            del o2["secs"][i]
            for d in o2["defs"] + o2["loc"]:
                d[1] -= d[1] > i
            for s in o2["secs"]:
                s["rels"] = [[r[0], ["s", r[1][1] - (r[1][1] > i)] if r[1][0] == "s" else r[1], r[2], r[3]] for r in s["rels"] if r[1] != ["s", i]]
            if o2["secs"]:
                yield mk(c)
        if o.get("style"):
            c = copy.deepcopy(case)
            list(objects(c))[k]["style"] = 0
            yield mk(c)


def drop_dangling(c):
    """Removes references to symbols that no object defines any more; false if the entry is gone."""
    defs = {d[0] for o in objects(c) for d in o["defs"]}
    for o in objects(c):
        gone = [u for u in o["und"] if u not in defs and not u.startswith("__st")]
        o["und"] = [u for u in o["und"] if u not in gone]
        own = {d[0] for d in o["defs"]} | set(o["und"])
        for s in o["secs"]:
            s["rels"] = [r for r in s["rels"] if r[1][0] != "g" or r[1][1] in own]
    return c["entry"] in defs
