"""Builder of TIFF structured content.  Every chunk (header, directory, out of
line value, blob) is placed in any order; values can refer to chunk positions."""
import random, struct

UNIT = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8, 13: 4}

class Chunk:
    align = 1
    def __init__(self): self.pos = None
    def size(self): raise NotImplementedError
    def render(self): raise NotImplementedError
    def __add__(self, d): return Ref(self, d)

class Ref:
    def __init__(self, c, d=0, neg=None): self.c, self.d, self.neg = c, d, neg
    def get(self): return self.c.pos + self.d - (self.neg.pos if self.neg else 0)

def val(v):
    if isinstance(v, Chunk): return v.pos
    if isinstance(v, Ref): return v.get()
    return v

class Group(Chunk):
    """chunks laid out one after the other; can stand for the Tiff in Dir(t)"""
    def __init__(self, le, pad=0): super().__init__(); self.le = le; self.chunks = []; self.pad = pad
    def enc(self, typ, vals): return Enc(self.le).enc(typ, vals)
    def blob(self, data):
        b = Blob(data); self.chunks.append(b); return b
    def dir(self, base=0, le=None):
        d = Dir(self, base, le); self.chunks.append(d); return d
    def size(self): return sum(c.size() for c in self.chunks) + self.pad
    def place(self, pos):
        self.pos = pos
        for c in self.chunks:
            place(c, pos); pos += c.size()
    def render(self): return b"".join(c.render() for c in self.chunks) + b"\0" * self.pad

def place(c, pos):
    if hasattr(c, "place"): c.place(pos)
    else: c.pos = pos

class Blob(Chunk):
    def __init__(self, data): super().__init__(); self.data = bytes(data)
    def size(self): return len(self.data)
    def render(self): return self.data

class Value(Chunk):
    def __init__(self, t, typ, vals): super().__init__(); self.t, self.typ, self.vals = t, typ, vals
    def size(self): return len(self.vals) * {1:1,2:1,6:1,7:1,3:2,8:2,4:4,9:4,11:4,13:4,5:4,10:4,12:1}.get(self.typ, 1)
    def render(self): return self.t.enc(self.typ, self.vals)

class Dir(Chunk):
    """entries: (tag, type, count, Value or raw 4 bytes); base is subtracted from value positions"""
    def __init__(self, t, base=0, le=None):
        super().__init__(); self.t = t; self.es = []; self.next = 0; self.base = base; self.le = t.le if le is None else le
        self.nent = None
    def e(self, tag, typ, vals, count=None, inline=True):
        """vals: bytes, str (NUL added) or numbers/Refs"""
        if isinstance(vals, str): vals = vals.encode("latin1") + b"\0"
        if isinstance(vals, (bytes, bytearray)) and typ not in (1, 2, 6, 7, 12): vals = list(vals)
        if isinstance(vals, (int, Chunk, Ref)): vals = [vals]
        v = Value(self.t if self.le == self.t.le else Enc(self.le), typ, vals)
        if count is None:
            count = v.size() // UNIT.get(typ, 1)
        if v.size() <= 4 and inline:
            self.es.append((tag, typ, count, v, True))
        else:
            self.t.chunks.append(v)
            self.es.append((tag, typ, count, v, False))
        return v
    def at(self, tag, typ, count, where):
        """an entry whose offset field is given"""
        self.es.append((tag, typ, count, where, False))
    def raw(self, tag, typ, count, raw4):
        self.es.append((tag, typ, count, Blob(raw4), True))
    def size(self): return 2 + 12 * len(self.es) + 4
    def render(self):
        p16 = lambda v: struct.pack("<H" if self.le else ">H", v & 0xffff)
        p32 = lambda v: struct.pack("<I" if self.le else ">I", v & 0xffffffff)
        out = p16(self.nent if self.nent is not None else len(self.es))
        b = val(self.base)
        for tag, typ, count, v, inl in self.es:
            out += p16(tag) + p16(typ) + p32(count.size() if isinstance(count, Chunk) else count)
            if inl: out += (v.render() + b"\0\0\0\0")[:4]
            else: out += p32((val(v) - b) if not isinstance(v, int) else v)
        return out + p32(val(self.next))

class Enc:
    def __init__(self, le): self.le = le
    def enc(self, typ, vals):
        if isinstance(vals, (bytes, bytearray)): return bytes(vals)
        e = "<" if self.le else ">"
        if typ in (3, 8): return b"".join(struct.pack(e + "H", val(v) & 0xffff) for v in vals)
        if typ in (4, 9, 11, 13, 5, 10): return b"".join(struct.pack(e + "I", val(v) & 0xffffffff) for v in vals)
        return bytes([val(v) & 0xff for v in vals])

class Tiff(Enc):
    def __init__(self, le=True, rng=None, head=None, gaps=False):
        self.le = le; self.chunks = []; self.rng = rng; self.first = 0; self.head = head; self.gaps = gaps; self.tail = 0
        self.fixed = []
    def dir(self, base=0, le=None):
        d = Dir(self, base, le); self.chunks.append(d)
        if self.first == 0: self.first = d
        return d
    def blob(self, data):
        b = Blob(data); self.chunks.append(b); return b
    def group(self, le=None, pad=0):
        g = Group(self.le if le is None else le, pad); self.chunks.append(g); return g
    def last(self, chunk):
        """keep a chunk at the end of the file"""
        self.chunks.remove(chunk); self.fixed.append(chunk); return chunk
    def bytes(self):
        cs = list(self.chunks)
        if self.rng: self.rng.shuffle(cs)
        cs += self.fixed
        head = self.head if self.head is not None else (b"II*\0" if self.le else b"MM\0*")
        out_pos = len(head) + 4
        gaps = []
        for c in cs:
            g = self.rng.choice([0, 0, 1, 3]) if (self.gaps and self.rng) else 0
            gaps.append(g); out_pos += g; place(c, out_pos); out_pos += c.size()
        out = head + struct.pack("<I" if self.le else ">I", val(self.first))
        for g, c in zip(gaps, cs):
            out += b"\xa5" * g + c.render()
        return out + b"\x5a" * self.tail

TYPES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]
def rnd_vals(rng, typ, n):
    if typ in (1, 6, 7): return bytes(rng.randrange(256) for _ in range(n))
    if typ == 2:
        s = bytes(rng.choice(b"abcXYZ 019.-/") for _ in range(max(0, n - 1)))
        k = rng.random()
        if k < .1 and n > 3: s = s[:1] + b"\0" + s[2:]
        elif k < .2 and n > 3: s = s[:1] + bytes([rng.choice([0x80, 0xff, 0xbf])]) + s[2:]
        return (s + (b"\0" if rng.random() < .8 else b"q"))[:n]
    if typ in (3, 8): return [rng.choice([0, 1, 32767, 32768, 65535, rng.randrange(65536)]) for _ in range(n)]
    if typ in (4, 9): return [rng.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, rng.randrange(2**32), rng.randrange(1000)]) for _ in range(n)]
    if typ == 5: return [x for _ in range(n) for x in rng.choice([(rng.randrange(20000), rng.randrange(20000)), (rng.randrange(2**31), rng.randrange(2**31)), (5, 0), (0, 3)])]
    if typ == 10: return [x for _ in range(n) for x in rng.choice([(rng.randrange(-20000, 20000), rng.randrange(1, 20000)), (rng.randrange(20000), -rng.randrange(1, 2000)), (-7, 0), (rng.randrange(-2**31, 2**31), rng.randrange(-2**31, 2**31))])]
    if typ == 11: return [struct.unpack("<I", struct.pack("<f", rng.choice([0.0, 1.5, -2.25, rng.uniform(-1e6, 1e6)])))[0] for _ in range(n)]
    if typ == 12: return bytes(rng.randrange(256) for _ in range(8 * n))
    return bytes(rng.randrange(256) for _ in range(n))
