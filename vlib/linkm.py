"""Linker scenarios: ELF object and archive writers, loaders for every executable format, and the reference rules of
doc/smlrl.md (which objects are needed, which symbols are errors, how sections are laid out, what every field holds)."""
import random, struct

ALLOC, WRITE, EXEC = 2, 1, 4
PROGBITS, NOBITS = 1, 8
ABS32, PC32, ABS16, PC16 = 1, 2, 20, 21
WIDTH = {ABS32: 4, PC32: 4, ABS16: 2, PC16: 2}
FORMATS = ["elf", "pe", "mach", "aout", "flat32", "flat16", "tiny", "small", "huge", "unreal"]
F16 = ("flat16", "tiny", "small")


class Bad(Exception):
    """The executable is not what a loader accepts."""


# ---------------------------------------------------------------- writers

def piece_bytes(sec):
    """The bytes of a PROGBITS piece before relocation: a marker, then filler, with the addends in the fields."""
    r = random.Random(sec["seed"])
    b = bytearray(r.getrandbits(8) for _ in range(sec["sz"])) if sec["sz"] < 4096 else bytearray(r.randbytes(sec["sz"]))
    for off, ref, ty, add in sec["rels"]:
        w = WIDTH[ty]
        b[off:off + w] = (add & ((1 << 8 * w) - 1)).to_bytes(w, "little")
    return bytes(b)


def write_obj(o):
    """An ELF32 relocatable of o: secs [{n,t,f,al,sz,seed,rels:[[off,ref,type,addend]]}], defs [[name,sec,value,sttype]],
    loc [[name,sec,value]], und [name]; ref is ["s",sec] | ["g",name] | ["l",index in loc] | ["0"]."""
    r = random.Random(o.get("lay", 0))
    secs = o["secs"]
    style = o.get("style", 0)          # 0: nasm-like, 1: other orders
    strtab, names = bytearray(b"\0"), {}

    def stradd(s):
        if s not in names:
            names[s] = len(strtab)
            strtab.extend(s.encode() + b"\0")
        return names[s]
    syms = [(0, 0, 0, 0, 0, 0)]
    local = []
    if style & 1:
        local.append(("file", (stradd("x%d.c" % len(secs)), 0, 0, 4, 0, 0xFFF1)))
    for i in range(len(secs)):
        local.append((("s", i), (0, 0, 0, 3, 0, i + 1)))
    for i, (n, s, v) in enumerate(o.get("loc", [])):
        local.append((("l", i), (stradd(n), v, 0, 0, 0, s + 1)))
    if style & 2:
        r.shuffle(local)
    index = {}
    for k, ent in local:
        index[k] = len(syms)
        syms.append(ent)
    nlocal = len(syms)
    glob = [(("g", n), (stradd(n), v, sz, 16 | ty, 0, s + 1)) for n, s, v, ty, sz in
            [(d[0], d[1], d[2], d[3], 0) for d in o["defs"]]]
    glob += [(("g", n), (stradd(n), 0, 0, 16, 0, 0)) for n in o["und"]]
    r.shuffle(glob)
    for k, ent in glob:
        index[k] = len(syms)
        syms.append(ent)
    shstr, shn = bytearray(b"\0"), {}

    def shadd(s):
        if s not in shn:
            shn[s] = len(shstr)
            shstr.extend(s.encode() + b"\0")
        return shn[s]
    hdrs = [[0] * 10]
    body = []                          # contents per header, None for NOBITS
    body.append(b"")
    for i, s in enumerate(secs):
        hdrs.append([shadd(s["n"]), s["t"], s["f"], 0, 0, s["sz"], 0, 0, s["al"], 0])
        body.append(piece_bytes(s) if s["t"] == PROGBITS else None)
    nsec = len(secs)
    relsecs = [i for i, s in enumerate(secs) if s["rels"]]
    tail = ["shstrtab", "symtab", "strtab"] + [("rel", i) for i in relsecs]
    if style & 4:
        r.shuffle(tail)
    where = {t: nsec + 1 + k for k, t in enumerate(tail)}
    for t in tail:
        if t == "shstrtab":
            hdrs.append([shadd(".shstrtab"), 3, 0, 0, 0, 0, 0, 0, 1, 0])
            body.append("SH")
        elif t == "symtab":
            hdrs.append([shadd(".symtab"), 2, 0, 0, 0, 16 * len(syms), where["strtab"], nlocal, 4, 16])
            body.append(b"".join(struct.pack("<IIIBBH", *e) for e in syms))
        elif t == "strtab":
            hdrs.append([shadd(".strtab"), 3, 0, 0, 0, len(strtab), 0, 0, 1, 0])
            body.append(bytes(strtab))
        else:
            i = t[1]
            rl = list(secs[i]["rels"])
            if style & 8:
                r.shuffle(rl)
            out = b""
            for off, ref, ty, add in rl:
                k = tuple(ref)
                out += struct.pack("<II", off, ((0 if k[0] == "0" else index[k]) << 8) | ty)
            hdrs.append([shadd(".rel" + secs[i]["n"]), 9, 0, 0, 0, len(out), where["symtab"], i + 1, 4, 8])
            body.append(out)
    body[where["shstrtab"]] = bytes(shstr)
    hdrs[where["shstrtab"]][5] = len(shstr)
    shoff_first = not style & 16
    pos = 52 + (len(hdrs) * 40 if shoff_first else 0)
    out = b""
    for h, b in zip(hdrs, body):
        al = max(1, min(h[8], 16)) if h[1] else 1
        padn = -pos % al
        out += b"\0" * padn
        pos += padn
        h[4] = pos if h[1] else 0
        if b is not None and h[1]:
            out += b
            pos += len(b)
    padn = -pos % 4
    shoff = 52 if shoff_first else pos + padn
    eh = b"\x7fELF\1\1\1" + b"\0" * 9 + struct.pack("<HHIIIIIHHHHHH", 1, 3, 1, 0, 0, shoff, 0, 52, 0, 0, 40, len(hdrs), where["shstrtab"])
    tbl = b"".join(struct.pack("<10I", *h) for h in hdrs)
    return eh + (tbl + out if shoff_first else out + b"\0" * padn + tbl)


def write_ar(members, style):
    """members [(name, bytes)]; style: gnu (trailing /, // table, / index), bsd (#1/len), plain."""
    out = b"!<arch>\n"

    def ent(name, data):
        return ("%-16s%-12d%-6d%-6d%-8s%-10d`\n" % (name, 0, 0, 0, "100644", len(data))).encode() + data

    def pad(b):
        return b + (b"\n" if len(b) & 1 else b"")
    if style == "gnu":
        tab, at = "", {}
        for n, _ in members:
            if len(n) > 15:
                at[n] = len(tab)
                tab += n + "/\n"
        out += pad(ent("/", struct.pack(">I", 0)))
        if tab:
            out += pad(ent("//", tab.encode()))
        for n, d in members:
            out += pad(ent("/%d" % at[n] if n in at else n + "/", d))
    elif style == "bsd":
        out += pad(ent("__.SYMDEF", b"\0" * 8))
        for n, d in members:
            nb = n.encode()
            if len(n) > 11:
                nb += b"\0" * (len(nb) & 3)
            out += pad(ent("#1/%d" % len(nb), nb + d))
    else:
        for n, d in members:
            out += pad(ent(n[:15] + "/" if style == "slash" else n[:16], d))
    return out


# ---------------------------------------------------------------- loaders

class Seg:
    def __init__(self, space, addr, data, memsz, perm, name=""):
        self.space, self.addr, self.data, self.memsz, self.perm, self.name = space, addr, bytearray(data), memsz, perm, name

    def end(self):
        return self.addr + self.memsz


class Image:
    def __init__(self, fmt):
        self.fmt, self.segs, self.entry, self.x = fmt, [], None, {}

    def read(self, space, addr, n):
        for s in self.segs:
            if s.space == space and s.addr <= addr and addr + n <= s.end():
                o = addr - s.addr
                b = bytes(s.data[o:o + n])
                return b + b"\0" * (n - len(b))
        return None

    def seg_at(self, space, addr):
        for s in self.segs:
            if s.space == space and s.addr <= addr < s.end():
                return s
        return None


def _need(c, msg):
    if not c:
        raise Bad(msg)


def u32(b, o):
    return struct.unpack_from("<I", b, o)[0]


def u16(b, o):
    return struct.unpack_from("<H", b, o)[0]


def _disjoint(img):
    ss = sorted(((s.space, s.addr, s.end(), s.name) for s in img.segs))
    for a, b in zip(ss, ss[1:]):
        _need(a[0] != b[0] or a[2] <= b[1], "segments %s and %s overlap" % (a, b))


def load_elf(b):
    img = Image("elf")
    _need(b[:7] == b"\x7fELF\1\1\1", "not a 32-bit ELF file")
    ty, mach, ver, entry, phoff, shoff, fl, ehs, phs, phn = struct.unpack_from("<HHIIIIIHHH", b, 16)
    _need((ty, mach, ver, ehs, phs) == (2, 3, 1, 52, 32) and phn >= 1, "bad ELF header fields")
    last = 0
    for i in range(phn):
        pt, off, va, pa, fs, ms, flg, al = struct.unpack_from("<8I", b, phoff + 32 * i)
        _need(pt == 1, "program header %d is not PT_LOAD" % i)
        _need(fs <= ms, "p_filesz > p_memsz")
        _need(al and off % al == va % al, "p_offset and p_vaddr disagree modulo p_align")
        _need(off + fs <= len(b), "segment %d lies outside the file" % i)
        _need(va >= last, "segments not in ascending order")
        _need(va + ms <= 1 << 32, "segment %d wraps around" % i)
        last = va + ms
        img.segs.append(Seg("", va, b[off:off + fs], ms, flg, "seg%d" % i))
    _disjoint(img)
    img.entry = ("", entry)
    s = img.seg_at("", entry)
    _need(s and s.perm & 1, "entry point not in an executable segment")
    img.base = min(s.addr for s in img.segs) & ~0xFFF
    return img


def load_pe(b):
    img = Image("pe")
    _need(b[:2] == b"MZ", "no MZ header")
    pe = u32(b, 60)
    _need(pe % 8 == 0 and b[pe:pe + 4] == b"PE\0\0", "no PE signature")
    mach, nsec, ts, psym, nsym, optsz, ch = struct.unpack_from("<HHIIIHH", b, pe + 4)
    _need(mach == 0x14C and optsz == 224 and ch & 0x102 == 0x102, "bad COFF header")
    o = pe + 24
    _need(u16(b, o) == 0x10B, "not PE32")
    szcode, szinit, szuninit, entry, bcode, bdata, ibase, salign, falign = struct.unpack_from("<9I", b, o + 4)
    szimg, szhdr, chk = struct.unpack_from("<3I", b, o + 56)
    subsys, dllch = struct.unpack_from("<HH", b, o + 68)
    nrva = u32(b, o + 92)
    _need(salign == 4096 and falign in (512, 1024, 2048, 4096), "bad alignments")
    _need(ibase % 65536 == 0 or True, "")
    _need(nrva == 16, "NumberOfRvaAndSizes")
    dirs = [struct.unpack_from("<II", b, o + 96 + 8 * i) for i in range(16)]
    sh = o + optsz
    _need(sh + 40 * nsec <= szhdr and szhdr % falign == 0 and szhdr <= len(b), "headers do not fit SizeOfHeaders")
    next_va = (szhdr + salign - 1) // salign * salign
    rawend = szhdr
    secs = []
    for i in range(nsec):
        name = b[sh:sh + 8].rstrip(b"\0").decode("latin-1")
        vsz, va, rsz, rptr, pr, pl, nr, nl, flg = struct.unpack_from("<IIIIIIHHI", b, sh + 8)
        sh += 40
        _need(va == next_va, "section %s is at RVA %x, the previous one ends at %x" % (name, va, next_va))
        _need(rsz % falign == 0, "SizeOfRawData of %s is not aligned" % name)
        if rsz:
            _need(rptr % falign == 0 and rptr >= szhdr and rptr + rsz <= len(b), "raw data of %s lies outside the file" % name)
            _need(rptr >= rawend, "raw data of %s overlaps the previous section's" % name)
            rawend = rptr + rsz
        next_va = (va + vsz + salign - 1) // salign * salign
        d = b[rptr:rptr + min(rsz, (vsz + 4095) // 4096 * 4096)] if rsz else b""
        perm = (4 if flg >> 30 & 1 else 0) | (2 if flg >> 31 & 1 else 0) | (1 if flg >> 29 & 1 else 0)
        secs.append((name, va, vsz, rsz, rptr, flg))
        img.segs.append(Seg("", ibase + va, d, (vsz + 4095) // 4096 * 4096, perm, name))
    _need(szimg == next_va, "SizeOfImage is %x, the sections end at %x" % (szimg, next_va))
    _disjoint(img)
    img.entry = ("", ibase + entry)
    s = img.seg_at("", ibase + entry)
    _need(s and s.perm & 1, "entry point not in an executable section")
    for i, (va, sz) in enumerate(dirs):
        _need(not va or (sz and va + sz <= szimg), "data directory %d lies outside the image" % i)
    _need(bcode == secs[0][1], "BaseOfCode")
    img.base, img.x = ibase, {"dirs": dirs, "secs": secs, "subsys": subsys, "ch": ch, "dllch": dllch, "szcode": szcode, "bdata": bdata}
    # base relocations
    rel = []
    va, sz = dirs[5]
    _need(bool(va) == (not ch & 1), "IMAGE_FILE_RELOCS_STRIPPED does not agree with the relocation directory")
    if va:
        d = img.read("", ibase + va, sz)
        _need(d is not None, "relocation directory lies outside the image")
        p = 0
        while p < sz:
            _need(p + 8 <= sz, "truncated relocation block")
            page, bs = struct.unpack_from("<II", d, p)
            _need(bs >= 8 and bs % 4 == 0 and p + bs <= sz and page % 4096 == 0, "bad relocation block at %x" % p)
            for q in range(p + 8, p + bs, 2):
                e = u16(d, q)
                if e >> 12 == 0:
                    continue
                _need(e >> 12 == 3, "relocation type %d" % (e >> 12))
                rel.append(ibase + page + (e & 4095))
            p += bs
    img.x["rel"] = rel
    return img


def load_mach(b):
    img = Image("mach")
    magic, cpu, sub, ft, nc, scmd, fl = struct.unpack_from("<7I", b, 0)
    _need(magic == 0xFEEDFACE and cpu == 7 and ft == 2, "bad Mach-O header")
    p, eip, names = 28, None, []
    fend, sym = 0, None
    for i in range(nc):
        _need(p + 8 <= 28 + scmd, "load commands exceed sizeofcmds")
        cmd, cs = struct.unpack_from("<II", b, p)
        _need(cs >= 8 and cs % 4 == 0 and p + cs <= 28 + scmd, "bad size of load command %d" % i)
        if cmd == 1:
            name = b[p + 8:p + 24].rstrip(b"\0").decode("latin-1")
            va, ms, fo, fs, maxp, initp, nsect, flg = struct.unpack_from("<8I", b, p + 24)
            _need(cs == 56 + 68 * nsect, "segment command %s has a wrong size" % name)
            _need(fs <= ms, "filesize > vmsize in %s" % name)
            _need(fo + fs <= len(b), "segment %s lies outside the file" % name)
            _need(va % 4096 == 0 and ms % 4096 == 0 and fo % 4096 == 0, "segment %s is not page-aligned" % name)
            for k in range(nsect):
                q = p + 56 + 68 * k
                sa, ss, so = struct.unpack_from("<3I", b, q + 32)
                _need(va <= sa and sa + ss <= va + ms and so - fo == sa - va, "section of %s lies outside it" % name)
            if name != "__PAGEZERO":
                perm = (initp & 1) * 4 | (initp & 2) | (initp >> 2 & 1)
                img.segs.append(Seg("", va, b[fo:fo + fs], ms, perm, name))
            else:
                _need(va == 0 and fs == 0 and initp == 0, "__PAGEZERO")
            names.append(name)
        elif cmd == 2:
            so, ns, to, ts = struct.unpack_from("<4I", b, p + 8)
            _need(so + 12 * ns <= len(b) and to + ts <= len(b), "symbol table lies outside the file")
            sym = (so, ns, to, ts)
        elif cmd == 5:
            _need(struct.unpack_from("<II", b, p + 8) == (1, 16), "thread state")
            eip = struct.unpack_from("<16I", b, p + 16)[10]
        p += cs
    _need(p == 28 + scmd, "sizeofcmds is wrong")
    _need(eip is not None, "no thread command")
    _need("__TEXT" in names and "__LINKEDIT" in names, "segments %s" % names)
    _disjoint(img)
    t = [s for s in img.segs if s.name == "__TEXT"][0]
    _need(bytes(t.data[:28]) == b[:28], "__TEXT does not start with the header")
    if sym:
        so, ns, to, ts = sym
        tab = {}
        for k in range(ns):
            sx, ty, sn, de, v = struct.unpack_from("<IBBHI", b, so + 12 * k)
            _need(sx < ts, "symbol name lies outside the string table")
            tab[b[to + sx:b.index(b"\0", to + sx)].decode("latin-1")] = v
        _need(tab.get("start") == eip, "symbol 'start' is not the entry point")
        _need(tab.get("__mh_execute_header") == t.addr, "symbol '__mh_execute_header' is not the image base")
    img.entry = ("", eip)
    s = img.seg_at("", eip)
    _need(s and s.perm & 1, "entry point not in an executable segment")
    img.base = t.addr
    img.segs = [s for s in img.segs if s.name != "__LINKEDIT"]
    return img


def load_aout(b, stub=None):
    img = Image("aout")
    h = 0
    if stub is not None:
        _need(b[:len(stub)] == stub, "the stub is not at the beginning of the file")
        info = struct.unpack_from("<16I", b, len(stub))
        _need(info[0] == 0x21245044, "no stub info record")
        img.x["info"] = info
        h = len(stub) + 64
    mid, text, data, bss, syms, entry, trs, drs = struct.unpack_from("<8I", b, h)
    _need(mid & 0xFFFF == 0o407 and mid >> 16 & 0x3FF == 100, "a_midmag %x" % mid)
    _need(h + 32 + text + data + trs + drs == len(b), "the sizes in the header give %d bytes, the file has %d" % (h + 32 + text + data + trs + drs, len(b)))
    _need(trs % 8 == 0 and drs % 8 == 0 and syms == 0, "relocation sizes")
    o = h + 32
    img.segs = [Seg("", 0, b[o:o + text], text, 7, "text")]
    if data + bss:
        img.segs.append(Seg("", text, b[o + text:o + text + data], data + bss, 6, "data"))
    _need(entry < text, "entry point not in the text")
    img.entry = ("", entry)
    o += text + data
    rel = []
    for n, base, size in ((trs, 0, text), (drs, text, data)):
        for k in range(0, n, 8):
            a, inf = struct.unpack_from("<II", b, o + k)
            length = inf >> 25 & 3
            _need(a + (1 << length) <= size, "relocation at %x lies outside its section" % a)
            rel.append((base + a, inf >> 24 & 1, 1 << length, inf & 0xFFFFFF, inf >> 26))
        o += n
    img.x["rel"] = rel
    img.base = 0
    return img


def load_flat(b, fmt, origin):
    img = Image(fmt)
    img.segs = [Seg("", origin, b, 0x10000 - origin if fmt != "flat32" else len(b) + (1 << 24), 7, "image")]
    img.entry = ("", origin)
    img.base = origin
    return img


def load_mz(b, fmt):
    img = Image(fmt)
    _need(b[:2] == b"MZ", "no MZ header")
    part, pages, nrel, hpar, mina, maxa, ss, sp, chk, ip, cs, relo, ovl = struct.unpack_from("<13H", b, 2)
    size = (pages - (part != 0)) * 512 + part
    _need(part < 512 and size == len(b), "the header says %d bytes, the file has %d" % (size, len(b)))
    _need(nrel == 0 and hpar == 4, "header size or relocations")
    _need(mina <= maxa, "MinAlloc > MaxAlloc")
    body = b[64:]
    total = (len(body) + 15) // 16 * 16 + mina * 16
    s16 = ss - 0x10000 if ss >= 0x8000 and fmt == "small" and ss > 0xFFF0 else ss
    c16 = cs - 0x10000 if cs >= 0xFFF0 else cs
    img.x = {"ss": s16, "sp": sp, "mina": mina, "total": total}
    if fmt == "small":
        _need(c16 == -4, "CS is %x" % cs)
        split = s16 * 16               # data segment's offset from the load segment
        _need(0 <= split <= len(body) or split - len(body) < 16, "SS points outside the program")
        img.segs = [Seg("c", 64, body[:split], split, 5, "code"), Seg("d", 0, body[split:], 65536, 6, "data")]
        _need(total >= split + sp + 2 and sp >= 0xFFF0, "the stack segment of 64KB does not fit into the memory asked for")
        img.entry = ("c", ip)
        _need(64 <= ip < 64 + split, "entry point not in the code")
    else:
        img.entry = ("", c16 * 16 + ip + 64)
        _need(ip < 16, "entry IP of %d" % ip)
        stk = s16 * 16
        _need(stk + sp <= total, "the stack does not fit into the memory asked for")
        _need(sp % 2 == 0 or True, "")
        img.segs = [Seg("", 64, body, stk, 7, "image")]
        _need(len(body) <= stk or stk + 15 >= len(body), "the stack overlaps the program")
        img.segs[0].memsz = max(stk, len(body))
    img.base = 64
    return img


# ---------------------------------------------------------------- reference rules

class Model:
    """Which objects are needed and where the documented layout rules apply."""

    def __init__(self, case):
        self.case = case
        self.objs = []
        for inp in case["inputs"]:
            for o in ([inp["obj"]] if inp["kind"] == "o" else inp["members"]):
                self.objs.append(o)
        self.error = None
        self.resolve()

    def resolve(self):
        objs, entry = self.objs, self.case["entry"]
        self.needed = need = set()
        definer = {}
        for i, o in enumerate(objs):
            for d in o["defs"]:
                definer.setdefault(d[0], i)
        self.deferred = []
        work = [entry]
        seen = set()
        bad = None
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in definer:
                i = definer[n]
                if i not in need:
                    need.add(i)
                    work.extend(objs[i]["und"])
            elif (n.startswith("__start_") and n != "__start_") or (n.startswith("__stop_") and n != "__stop_"):
                self.deferred.append(n)
            else:
                bad = bad or set()
                bad.add(n)
        self.undefined = bad
        cnt = {}
        for i in need:
            for d in objs[i]["defs"]:
                cnt.setdefault(d[0], []).append(i)
        self.duplicate = {n for n, v in cnt.items() if len(v) > 1}
        self.names = {}
        for i in sorted(need):
            for s in objs[i]["secs"]:
                if s["f"] & ALLOC:
                    self.names.setdefault(s["n"], set()).add((s["f"] & (WRITE | EXEC), s["t"] == NOBITS))
        self.inconsistent = {n for n, v in self.names.items() if len(v) > 1 or any(k[0] == 5 or (k[0] & EXEC and k[1]) for k in v)}
        self.nocode = not any(k[0] & EXEC for v in self.names.values() for k in v)
        self.badstart = set()
        for n in self.deferred:
            base = n[8:] if n.startswith("__start_") else n[7:]
            ok = base == "allcode__" or (base == "alldata__" and any(not k[0] & EXEC for v in self.names.values() for k in v)) or \
                (base == "stack__" and self.case["fmt"] in ("tiny", "small"))
            ok = ok or any(len(s) == len(base) and all(a == c or (a == "_" and c == ".") for a, c in zip(base, s)) for s in self.names)
            if not ok:
                self.badstart.add(n)

    def section_of(self, base):
        for s in self.names:
            if len(s) == len(base) and all(a == c or (a == "_" and c == ".") for a, c in zip(base, s)):
                return s
        return None

    def rank(self, name):
        (f, nob), = self.names[name]
        code = bool(f & EXEC)
        return (nob, not code, bool(f & WRITE), name != ".text" if code else False,
                not name.startswith(".dll_") if f & WRITE else False, name.encode())

    def order(self):
        return sorted(self.names, key=self.rank)

    def pieces(self, name):
        """(object index, section index) in input order."""
        return [(i, j) for i in sorted(self.needed) for j, s in enumerate(self.objs[i]["secs"]) if s["f"] & ALLOC and s["n"] == name]

    def align(self, s):
        a = max(1, s["al"])
        fmt = self.case["fmt"]
        if fmt in F16 and s["f"] & EXEC and a > 4:
            a = 4
        if fmt == "huge" and s["n"] in (".relot", ".relod"):
            a = 4
        return a


# ---------------------------------------------------------------- generation

CODE = [".text", ".text", ".text", ".text2", "code", ".init", ".text_a"]
RO = [".rodata", ".rodata", ".rodata2", "tab", ".rdx"]
RW = [".data", ".data", ".data2", "adata", ".dll_zz", ".zdata"]
BSS = [".bss", ".bss", ".bss2", "zbss"]


def _size(r, small):
    k = r.random()
    if k < 0.05:
        return 0
    if k < 0.15:
        return r.randint(1, 7)
    if k < 0.65 or (small and k < 0.85):
        return r.randint(8, 120)
    if k < 0.8:
        return 1024 * r.randint(1, 3) + r.randint(-5, 5)
    if k < 0.93 or small:
        return r.randint(100, 2500)
    return r.choice([4096, 4095, 4097, r.randint(4000, 9000), r.randint(4000, 30000)])


def gen_obj(r, fmt, k, nobj, big=True):
    small = fmt in F16
    secs = []
    for i in range(r.choice([1, 2, 2, 3, 3, 4, 5])):
        pool = r.random()
        if pool < 0.3:
            n, f, t = r.choice(CODE), ALLOC | EXEC, PROGBITS
        elif pool < 0.55:
            n, f, t = r.choice(RO), ALLOC, PROGBITS
            if fmt == "huge" and r.random() < 0.3:
                n = r.choice([".relot", ".relod"])
        elif pool < 0.8:
            n, f, t = r.choice(RW), ALLOC | WRITE, PROGBITS
        elif pool < 0.95:
            n, f, t = r.choice(BSS), ALLOC | WRITE, NOBITS
        else:
            n, f, t = r.choice([".comment", ".dbg", ".note.x", ".data", ".text", ".rodata", ".bss"]), 0, PROGBITS
        if any(s["n"] == n for s in secs) and r.random() < 0.9:
            continue
        al = r.choice([1, 1, 2, 4, 4, 4, 8, 16, 16, 0])
        if r.random() < 0.12 and fmt != "huge":
            al = r.choice([32, 64, 256] if small else [32, 64, 256, 1024, 4096])
        sz = _size(r, small or not big)
        if fmt in ("huge", "unreal") and t == NOBITS and r.random() < 0.1:
            sz = r.randint(1000, 70000)
        secs.append({"n": n, "t": t, "f": f, "al": al, "sz": sz, "seed": r.getrandbits(40), "rels": []})
    if not any(s["t"] == PROGBITS and s["sz"] >= 60 and s["f"] & ALLOC for s in secs):
        secs.append({"n": ".data", "t": PROGBITS, "f": ALLOC | WRITE, "al": 4, "sz": r.randint(60, 200), "seed": r.getrandbits(40), "rels": []})
    o = {"secs": secs, "defs": [], "loc": [], "und": [], "lay": r.getrandbits(30), "style": r.choice([0, 0, 0, r.randrange(32)]), "name": "o%d" % k}
    al = [i for i, s in enumerate(secs) if s["f"] & ALLOC]
    for i in range(r.choice([0, 1, 1, 2, 3])):
        s = r.choice(al)
        o["loc"].append(["l%d" % i, s, r.randint(0, secs[s]["sz"])])
    return o


def _fields(r, sec, ty):
    """A free offset for a field of this type, or None."""
    w = WIDTH[ty]
    lo = 8 if sec["sz"] >= 8 else 0
    if sec["sz"] < lo + w:
        return None
    taken = set()
    for off, ref, t, a in sec["rels"]:
        taken.update(range(off, off + WIDTH[t]))
    for _ in range(6):
        k = r.random()
        if k < 0.3 and sec["sz"] > 1030:
            off = 1024 * r.randint(1, sec["sz"] // 1024) - r.randint(-1, 4)
        elif k < 0.4:
            off = sec["sz"] - w
        else:
            off = r.randint(lo, sec["sz"] - w)
        if lo <= off <= sec["sz"] - w and not taken & set(range(off, off + w)):
            return off
    return None


def _addend(r, w):
    k = r.random()
    if k < 0.4:
        return 0
    if k < 0.6:
        return -w & ((1 << 8 * w) - 1)
    if k < 0.9:
        return r.randint(-300, 300) & ((1 << 8 * w) - 1)
    return r.getrandbits(8 * w)


def add_rel(r, fmt, o, si, ref, ty=None, add=None):
    s = o["secs"][si]
    if ty is None:
        if fmt in F16:
            ty = r.choice([ABS16, ABS16, PC16, ABS32])
        elif r.random() < 0.03 and fmt != "pe":
            ty = r.choice([ABS16, PC16])
        else:
            ty = r.choice([ABS32, ABS32, PC32])
    off = _fields(r, s, ty)
    if off is None:
        return False
    s["rels"].append([off, ref, ty, _addend(r, WIDTH[ty]) if add is None else add])
    return True


def gen_case(r, fmt, kind="ok", nmax=7):
    """kind: ok | err (something undefined or duplicate)."""
    n = r.choice([1, 2, 2, 3, 3, 4, 5, nmax])
    big = r.random() < 0.5
    objs = [gen_obj(r, fmt, k, n, big) for k in range(n)]
    # definitions
    uid = 0
    for k, o in enumerate(objs):
        al = [i for i, s in enumerate(o["secs"]) if s["f"] & ALLOC]
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            i = r.choice(al)
            sz = o["secs"][i]["sz"]
            o["defs"].append([r.choice(["g%d", "g%d", "_f%d", "longer_name_of_symbol_%d"]) % uid, i, r.choice([0, 0, r.randint(0, sz), sz]), r.choice([0, 0, 1, 2])])
            uid += 1
    entry = "__start" if r.random() < 0.8 else r.choice(["main", "_start", "g_entry", "__start__"])
    e = r.randrange(n)
    code = [i for i, s in enumerate(objs[e]["secs"]) if s["f"] & EXEC and s["sz"]]
    if not code:
        objs[e]["secs"].insert(0, {"n": ".text", "t": PROGBITS, "f": ALLOC | EXEC, "al": r.choice([1, 4, 16]), "sz": r.randint(20, 90), "seed": r.getrandbits(40), "rels": []})
        for d in objs[e]["defs"]:
            d[1] += 1
        for d in objs[e]["loc"]:
            d[1] += 1
        code = [0]
    ci = r.choice(code)
    objs[e]["defs"].append([entry, ci, r.choice([0, 0, 0, r.randint(0, objs[e]["secs"][ci]["sz"] - 1)]), 0])
    # references
    dens = r.choice([0.5, 0.5, 1.5, 0.2])
    for k, o in enumerate(objs):
        others = [d[0] for j, p in enumerate(objs) if j != k for d in p["defs"]]
        und = set(x for x in others if r.random() < dens / max(1, len(others)) * 2)
        if k == e:
            und |= set(r.sample(others, min(len(others), r.choice([1, 2, 3])))) if others else set()
        o["und"] = sorted(und)
    # a piece without a marker needs a pointer to it
    for o in objs:
        big1 = [i for i, s in enumerate(o["secs"]) if s["t"] == PROGBITS and s["sz"] >= 16 and s["f"] & ALLOC]
        for i, s in enumerate(o["secs"]):
            if s["f"] & ALLOC and (s["t"] == NOBITS or s["sz"] < 8):
                ty = ABS16 if fmt in F16 else ABS32
                for b in sorted(big1, key=lambda b: -o["secs"][b]["sz"]):
                    if add_rel(r, fmt, o, b, ["s", i], ty, 0):
                        break
    for k, o in enumerate(objs):
        names = [d[0] for d in o["defs"]] + o["und"]
        for i, s in enumerate(o["secs"]):
            if s["t"] != PROGBITS:
                continue
            for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
                q = r.random()
                if q < 0.35 and names:
                    ref = ["g", r.choice(names)]
                elif q < 0.6:
                    al = [j for j, x in enumerate(o["secs"]) if x["f"] & ALLOC]
                    ref = ["s", r.choice(al)]
                elif q < 0.8 and o["loc"]:
                    ref = ["l", r.randrange(len(o["loc"]))]
                elif q < 0.86 and fmt != "pe":
                    ref = ["0"]
                elif names:
                    ref = ["g", r.choice(names)]
                else:
                    continue
                if not s["f"] & ALLOC and fmt == "pe" and ref == ["0"]:
                    continue
                add_rel(r, fmt, o, i, ref)
    case = {"fmt": fmt, "entry": entry, "opts": [], "stack": None, "origin": None}
    # start and stop symbols
    if r.random() < 0.6 or kind == "layout":
        o = objs[e]
        i = max((i for i, s in enumerate(o["secs"]) if s["t"] == PROGBITS and s["f"] & ALLOC), key=lambda i: o["secs"][i]["sz"])
        used = sorted({s["n"] for s in o["secs"] if s["f"] & ALLOC})
        for _ in range(r.choice([1, 2, 4]) + 4 * (kind == "layout")):
            b = r.choice(used).replace(".", "_") if r.random() < 0.7 else r.choice(["allcode__"] + (["alldata__"] if any(s["f"] & (ALLOC | EXEC) == ALLOC for s in o["secs"]) else []) + (["stack__"] if fmt in ("tiny", "small") else []))
            nm = r.choice(["__start_", "__stop_"]) + b
            if nm == "__stop_stack__":
                nm = "__start_stack__"
            if nm not in o["und"]:
                o["und"].append(nm)
            add_rel(r, fmt, o, i, ["g", nm], ABS16 if fmt in F16 else ABS32)
    if fmt == "unreal":
        o = objs[e]
        i = max((i for i, s in enumerate(o["secs"]) if s["t"] == PROGBITS and s["f"] & ALLOC), key=lambda i: o["secs"][i]["sz"])
        for nm in ("__start__relod", "__stop__relod"):
            if add_rel(r, fmt, o, i, ["g", nm], ABS32, 0):
                o["und"].append(nm)
    case["inputs"] = pack(r, objs)
    case["entry_obj"] = e
    if r.random() < 0.3:
        case["opts"].append("-nobss")
    if fmt in ("elf", "pe", "mach", "flat32", "flat16") and r.random() < 0.4:
        case["origin"] = r.choice([0x100, 0x7C00, 0x1000, r.randint(0, 0x4000)]) if fmt == "flat16" else \
            r.choice([0, 0x100000, 0x10000, 0x8000000, 0x7FFF0000, 0xC0000000, r.randrange(1 << 31)])
        if fmt in ("elf", "pe", "mach"):
            case["origin"] = max(case["origin"], 0x10000)
    if fmt in ("tiny", "small", "huge", "unreal") and r.random() < 0.3:
        case["stack"] = r.choice([8192, 0x2000, 10000, 16384, r.randint(8192, 20000) & ~1])
    case["map"] = r.random() < 0.6 or kind == "layout"
    case["at"] = r.random() < 0.15
    if fmt == "pe" and r.random() < 0.3:
        case["opts"].append(r.choice(["-norel", "-gui", "-norel"]))
    return case


def pack(r, objs):
    inputs, i = [], 0
    while i < len(objs):
        if r.random() < 0.55:
            inputs.append({"kind": "o", "obj": objs[i]})
            i += 1
        else:
            k = r.randint(1, 4)
            inputs.append({"kind": "a", "style": r.choice(["gnu", "gnu", "bsd", "plain", "slash"]),
                           "names": [r.choice(["%s.o", "a_rather_long_member_%s.o"]) % o["name"] for o in objs[i:i + k]], "members": objs[i:i + k]})
            i += k
    return inputs


def files_of(case):
    """[(file name, bytes)] in command-line order."""
    out = []
    for k, inp in enumerate(case["inputs"]):
        if inp["kind"] == "o":
            out.append(("i%d.o" % k, write_obj(inp["obj"])))
        else:
            out.append(("i%d.a" % k, write_ar(list(zip(inp["names"], [write_obj(o) for o in inp["members"]])), inp["style"])))
    return out


def args_of(case, outname, mapname=None, origin=None):
    a = ["-" + case["fmt"], "-o", outname] + list(case["opts"])
    if case["entry"] != "__start":
        a += ["-entry", case["entry"]]
    org = case.get("origin") if origin is None else origin
    if org is not None:
        a += ["-origin", str(org)]
    if case.get("stack") is not None:
        a += ["-stack", str(case["stack"])]
    if mapname:
        a += ["-map", mapname]
    return a


def origin_of(case):
    f, o = case["fmt"], case.get("origin")
    if f == "tiny":
        return 0x100
    if f in ("flat16", "flat32"):
        return o or 0
    return o


def load(case, b, stub=None):
    f = case["fmt"]
    if f == "elf":
        return load_elf(b)
    if f == "pe":
        return load_pe(b)
    if f == "mach":
        return load_mach(b)
    if f == "aout":
        return load_aout(b, stub)
    if f in ("flat16", "flat32", "tiny"):
        return load_flat(b, f, origin_of(case))
    return load_mz(b, f)
