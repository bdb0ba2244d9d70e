"""Reference model of C streams: files as byte strings, streams with a position, pushback and last operation."""


class UB(Exception):
    pass


class Stream:
    def __init__(self, name, mode, dos=False):
        self.text = bool(dos) and "b" not in mode      # lines end in CR LF in the file
        self.name, self.mode = name, mode
        self.rd = mode[0] == "r" or "+" in mode
        self.wr = mode[0] != "r" or "+" in mode
        self.app = mode[0] == "a"
        self.pos = 0
        self.push = []
        self.eof = False
        self.last = None      # 'r', 'w' or None
        self.didread = False  # a character was read or end of file met since the last positioning
        self.virgin = True
        self.lost = False     # position unknown after a failed seek
        self.told = not self.app


class Model:
    """step(op) -> expected observation; raises UB before changing anything when C (or the documented subset) does not define the operation."""

    def __init__(self, dos=False):
        self.files, self.st = {}, {}
        self.dos = dos
        self.pos = {}
        self.told = {}       # file -> positions ftell gave

    def isopen(self, name):
        return any(s and s.name == name for s in self.st.values())

    def step(self, op):
        return getattr(self, "o_" + op[0])(*op[1:])

    def need(self, k, rd=False, wr=False):
        s = self.st.get(k)
        if not s or s.lost:
            raise UB
        if rd and (not s.rd or s.last == "w"):
            raise UB
        if rd and s.text:
            d = self.files[s.name][s.pos:].replace(b"\r\n", b"")
            if 13 in d or 26 in d:
                raise UB       # not what a text stream has written
        if wr and (not s.wr or s.last == "r" and not (s.eof and not s.push and s.pos >= len(self.files[s.name]))):
            raise UB
        return s

    def o_open(self, k, name, mode):
        if self.st.get(k) or self.isopen(name):
            raise UB
        if mode[0] == "a" and "+" in mode:
            return None       # documented: not supported
        if mode[0] == "r" and name not in self.files:
            return None
        if mode[0] == "w" or name not in self.files:
            self.files[name] = bytearray()
        self.st[k] = Stream(name, mode, self.dos)
        return True

    def o_reopen(self, k, name, mode):
        s = self.st.get(k)
        if not s or self.isopen(name) and s.name != name or mode[0] == "a" and "+" in mode:
            raise UB
        if mode[0] == "r" and name not in self.files:
            raise UB
        self.st[k] = None
        return self.o_open(k, name, mode)

    def o_close(self, k):
        if not self.st.get(k):
            raise UB
        self.st[k] = None
        self.pos.pop(k, None)
        return 0

    def o_setvbuf(self, k, mode, size, ext):
        s = self.need(k)
        if not s.virgin:
            raise UB
        s.virgin = False
        return 0

    def read1(self, s):
        s.virgin = False
        s.last = "r"
        s.didread = True
        if s.push:
            return s.push.pop()
        if s.eof:
            return -1
        d = self.files[s.name]
        if s.text and s.pos < len(d):
            if d[s.pos] == 13:
                s.pos += 1
        if s.pos >= len(d):
            s.eof = True
            return -1
        s.pos += 1
        return d[s.pos - 1]

    def o_getc(self, k, how):
        return self.read1(self.need(k, rd=True))

    def o_fread(self, k, es, n):
        s = self.need(k, rd=True)
        if es * n == 0:
            return 0, b""
        b = bytearray()
        while len(b) < es * n:
            c = self.read1(s)
            if c < 0:
                break
            b.append(c)
        return len(b) // es, bytes(b[:len(b) // es * es])

    def o_fgets(self, k, n):
        s = self.need(k, rd=True)
        if n < 2:
            raise UB
        b = bytearray()
        while len(b) < n - 1:
            c = self.read1(s)
            if c < 0:
                break
            b.append(c)
            if c == 10:
                break
        return bytes(b) + b"\0" if b else None

    def o_ungetc(self, k, c):
        s = self.need(k, rd=True)
        if s.last != "r" or not s.didread or s.push:
            raise UB
        if s.text and c == 13:
            raise UB
        s.push.append(c)
        s.eof = False
        return c

    def write(self, s, b):
        if s.text:
            b = b.replace(b"\n", b"\r\n")
        s.virgin = False
        s.last = "w"
        d = self.files[s.name]
        if s.app:
            s.pos = len(d)
            s.told = True
        if s.pos > len(d):
            if self.dos:
                raise UB
            d += bytes(s.pos - len(d))
        d[s.pos:s.pos + len(b)] = b
        s.pos += len(b)

    def o_putc(self, k, c, how):
        s = self.need(k, wr=True)
        if self.dos and s.pos > len(self.files[s.name]):
            raise UB
        if s.text and c in (13, 26):
            raise UB
        self.write(s, bytes([c]))
        return c

    def o_fwrite(self, k, es, n, seed):
        s = self.need(k, wr=True)
        if es * n == 0:
            return 0
        if self.dos and s.pos > len(self.files[s.name]) or len(self.files[s.name]) > 9000:
            raise UB
        self.write(s, self.bytes_for(s, seed, es * n))
        return n

    def bytes_for(self, s, seed, n):
        return txt(seed, n) if s.text else pat(seed, n)

    def o_fputs(self, k, seed, n):
        s = self.need(k, wr=True)
        if self.dos and s.pos > len(self.files[s.name]):
            raise UB
        b = txt(seed, n)
        if b:
            self.write(s, b)
        return 0

    def o_printf(self, k, seed, n, v):
        s = self.need(k, wr=True)
        if self.dos and s.pos > len(self.files[s.name]):
            raise UB
        b = b"%d<" % v + txt(seed, n) + b">\n"
        self.write(s, b)
        return len(b)

    def tell(self, s):
        if s.text and s.push:
            raise UB
        if s.lost or s.app and not s.told or s.pos - len(s.push) < 0:
            raise UB
        return s.pos - len(s.push)

    def o_ftell(self, k):
        s = self.need(k)
        if s.app:
            raise UB
        p = self.tell(s)
        self.told.setdefault(s.name, set()).add(p)
        return p

    def o_fgetpos(self, k):
        s = self.need(k)
        if s.app:
            raise UB
        self.pos[k] = self.tell(s)
        return 0

    def o_fsetpos(self, k):
        s = self.st.get(k)
        if not s or s.app or k not in self.pos:
            raise UB
        self.seek(s, self.pos[k])
        return 0

    def seek(self, s, p):
        s.lost = False
        s.pos = p
        s.push = []
        s.eof = False
        s.last = None
        s.didread = False
        s.virgin = False

    def o_fseek(self, k, off, wh):
        s = self.st.get(k)
        if not s or s.lost and wh == 1:
            raise UB
        if s.app:
            if wh == 1:
                raise UB
            s.last, s.virgin = None, False
            return None     # result not compared
        if s.text and (off if wh else off and off not in self.told.get(s.name, ())):
            raise UB
        p = off if wh == 0 else self.tell(s) + off if wh == 1 else len(self.files[s.name]) + off
        if self.dos and p < 0:
            raise UB
        if p < 0:
            s.lost = True
            return False
        if p > 20000:
            raise UB
        self.seek(s, p)
        return True

    def o_rewind(self, k):
        s = self.st.get(k)
        if not s:
            raise UB
        if s.app:
            s.last, s.virgin = None, False
            return None
        self.seek(s, 0)
        return None

    def o_fflush(self, k):
        s = self.need(k)
        if s.last == "r" or s.last is None and s.rd and s.wr and not s.virgin:
            raise UB       # C: only after output (or on a stream not read)
        s.virgin = False
        if s.last == "w":
            s.last = None
            s.didread = False
        return 0

    def o_flushall(self):
        for s in self.st.values():
            if s and s.last == "w":
                s.last, s.didread = None, False
        return 0

    def o_feof(self, k):
        return int(self.need(k).eof)

    def o_ferror(self, k):
        self.need(k)
        return 0

    def o_clearerr(self, k):
        s = self.need(k)
        s.eof = False
        return None

    def o_remove(self, name):
        if self.isopen(name):
            raise UB
        if name not in self.files:
            return False
        del self.files[name]
        return True

    def o_rename(self, a, b):
        if self.isopen(a) or self.isopen(b) or a == b:
            raise UB
        if a not in self.files:
            return False
        if b in self.files and self.dos:
            raise UB
        if b in self.files:
            raise UB
        self.files[b] = self.files.pop(a)
        return True

    def o_tmpfile(self, k):
        if self.st.get(k):
            raise UB
        n = "*tmp%d" % k
        self.files[n] = bytearray()
        self.st[k] = Stream(n, "w+b")
        return True


def pat(seed, n):
    return bytes(((seed * 31 + i * 7 + (i >> 5) * 13) & 255) for i in range(n))


def txt(seed, n):
    return bytes(10 if (i * 5 + seed) % 23 == 0 else 33 + (seed * 7 + i * 11) % 90 for i in range(n))
