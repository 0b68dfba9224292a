"""Canon CR3 files: boxes, metadata blocks, tracks."""
import random, struct
from .tiffgen import *
from .jpeggen import jpeg, broken
CRAW = bytes.fromhex("85c0b687820f11e08111f4ce462b6a48")
PRVW = bytes.fromhex("eaf42b5e1c984b88b9fbb7dc406e4d16")
XPKT = bytes.fromhex("be7acfcb97a942e89c719994 91e3afac".replace(" ", ""))
u16 = lambda v: struct.pack(">H", v & 0xffff)
u32 = lambda v: struct.pack(">I", v & 0xffffffff)
u64 = lambda v: struct.pack(">Q", v & 0xffffffffffffffff)
class Boxes:
    """encodes boxes, sometimes with 64 bit sizes"""
    def __init__(self, rng, wide=.15, junk=.25): self.rng, self.wide, self.pj = rng, wide, junk
    def box(self, name, data, uuid=None, wide=None):
        if isinstance(name, str): name = name.encode()
        body = (uuid or b"") + data
        if wide is None: wide = self.rng.random() < self.wide
        return u32(1) + name + u64(16 + len(body)) + body if wide else u32(8 + len(body)) + name + body
    def junk(self):
        r = self.rng; n = r.choice(["free", "skip", "abcd", "uuid", "uuid", "\x01\x02\x03\x04"])
        d = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 4, 9, 30])))
        if n == "uuid": return self.box(n, d, bytes(r.randrange(256) for _ in range(16)) if r.random() < .8 else PRVW if r.random() < .5 else b"")
        return self.box(n, d)
    def mix(self, parts, shuffle=True, fixed=0):
        """children in any order (the first `fixed` stay in order), with others between"""
        r = self.rng; parts = list(parts)
        if shuffle:
            head, rest = parts[:fixed], parts[fixed:]; r.shuffle(rest)
            # keep the relative order of head, spread over the whole
            out = rest
            pos = sorted(r.randrange(len(rest) + 1) for _ in head)
            for p, h in reversed(list(zip(pos, head))): out.insert(p, h)
            parts = out
        res = []
        for p in parts:
            while r.random() < self.pj: res.append(self.junk())
            res.append(p)
        if r.random() < self.pj: res.append(self.junk())
        if r.random() < .05: res.append(bytes(r.randrange(1, 8)))
        return b"".join(res)
def mvhd(b):
    r = b.rng; v = r.randrange(2)
    return b.box("mvhd", bytes([v, 0, 0, 0]) + bytes(16 if v else 8) + u32(r.choice([1, 600, 1 << 31])) + bytes(8 if v else 4) + bytes(80))
def tkhd(b, id):
    r = b.rng; v = r.randrange(2)
    return b.box("tkhd", bytes([v, 0, 0, r.choice([0, 3, 7])]) + bytes(16 if v else 8) + u32(id) + bytes(4) + bytes(8 if v else 4) + bytes(16 + 36 + 8))
def mdhd(b):
    r = b.rng; v = r.randrange(2)
    return b.box("mdhd", bytes([v, 0, 0, 0]) + bytes(16 if v else 8) + u32(r.choice([1, 600])) + (u64(r.choice([0, 5])) if v else u32(r.choice([0, 1, 0xffffffff]))) + bytes(4))
def hdlr(b, kind): return b.box("hdlr", bytes(8) + kind.encode() + bytes(12) + b.rng.choice([b"", b"\0", b"name\0", b"\xff\xfe", b"a\0b\0"]))
class Trk:
    def __init__(self, kind="vide", entry="CRAW", w=0, h=0, jpeg=False, off=0, len=0, **k):
        self.kind, self.entry, self.w, self.h, self.jpeg, self.off, self.len = kind, entry, w, h, jpeg, off, len
        self.id, self.stsz, self.stco, self.stsd, self.tkhd = 1, True, True, True, True
        self.__dict__.update(k)
def entry(b, t):
    r = b.rng; d = bytes(6) + u16(1) + bytes(16) + u16(t.w) + u16(t.h)
    if t.entry != "CRAW": return b.box(t.entry, d + bytes(50))
    kids = [b.box("CMP1", bytes(r.randrange(40)))] if r.random() < .7 else []
    if t.jpeg: kids.append(b.box("JPEG", bytes(r.choice([0, 4]))))
    return b.box("CRAW", d + bytes(54) + b.mix(kids))
def track(b, t):
    r = b.rng; pad = lambda: bytes(r.choice([0, 0, 0, 1, 4, 12]))
    st = []
    if t.stsd:
        n = r.choice([1, 1, 1, 1, 2])
        es = [entry(b, t)] + [entry(b, Trk(w=9, h=9, jpeg=not t.jpeg)) for _ in range(n - 1)]
        if t.stsd == "empty": n, es = 0, []
        st.append(b.box("stsd", bytes(4) + u32(n) + b"".join(es) + (pad() if n == 1 else b"")))
    if t.stsz:
        k = r.random(); n = r.choice([1, 1, 2, 5])
        if t.stsz == "empty": d = u32(0) + u32(0)
        elif k < .4 and t.len: d = u32(t.len) + u32(r.choice([0, 1, 1, 3]))
        else: d = u32(0) + u32(n) + u32(t.len) + b"".join(u32(r.randrange(1 << 32)) for _ in range(n - 1))
        st.append(b.box("stsz", bytes(4) + d + pad()))
    if t.stco:
        n = r.choice([1, 1, 2, 4]); big = t.off >= 1 << 32 or r.random() < .5
        f = u64 if big else u32
        o = b"".join([f(t.off)] + [f(r.randrange(1 << 32)) for _ in range(n - 1)])
        if t.stco == "empty": n, o = 0, b""
        st.append(b.box("co64" if big else "stco", bytes(4) + u32(n) + o + pad()))
    if r.random() < .5: st.append(b.box("stts", bytes(4) + u32(1) + u32(1) + u32(1) + pad()))
    if r.random() < .5: st.append(b.box("stsc", bytes(4) + u32(1) + u32(1) + u32(1) + u32(1) + pad()))
    if r.random() < .2: st.append(b.box("stss", bytes(4) + u32(1) + u32(1) + pad()))
    if r.random() < .2: st.append(b.box("ctts", bytes(4) + u32(1) + u32(1) + u32(0)))
    minf = b.mix([b.box("stbl", b.mix(st))] + ([b.box("vmhd", bytes(12))] if r.random() < .6 else []) + ([b.box("dinf", b.box("dref", bytes(8)))] if r.random() < .6 else []))
    md = [hdlr(b, t.kind), b.box("minf", minf)]
    if r.random() < .8: md.append(mdhd(b))
    kids = [b.box("mdia", b.mix(md, fixed=2))]
    if t.tkhd: kids.append(tkhd(b, t.id))
    if r.random() < .2: kids.append(b.box("edts", b.box("elst", bytes(4) + u32(1) + u32(5) + u32(0) + u16(1) + u16(0))))
    return b.box("trak", b.mix(kids))
def craw(b, blocks, thumb, table, version=True):
    """the header: blocks {1..4: bytes}, thumb (w, h, data) or None, table of (offset, size)"""
    r = b.rng; kids = []
    if version: kids.append(b.box("CNCV", b"CanonCR3_001/00.10.00/00.00.00"[:r.choice([30, 30, 5, 0])]))
    for k, d in blocks.items(): kids.append(b.box("CMT%d" % k, d))
    if thumb:
        w, h, d = thumb; kids.append(b.box("THMB", bytes(4) + u16(w) + u16(h) + u32(len(d)) + bytes(4) + d + bytes(r.choice([0, 0, 3]))))
    if table is not None:
        kids.append(b.box("CTBO", u32(len(table)) + b"".join(u32(i + 1) + u64(o) + u64(s) for i, (o, s) in enumerate(table)) + bytes(r.choice([0, 0, 5]))))
    return b.box("uuid", b.mix(kids), CRAW)
def prvw(b, w, h, data, wide=False):
    """the box of the preview; its content is at fixed distances"""
    return b.box("uuid", bytes(4) + u32(1) + b.box("PRVW", bytes(4) + u16(1) + u16(w) + u16(h) + u16(1) + u32(len(data)) + data, wide=False), PRVW, wide=False)
class Cr3:
    """assembles the file; tracks and the table may refer to data by index: the layout is found by iterating"""
    def __init__(self, rng, **k):
        self.rng, self.blocks, self.thumb, self.version, self.tracks = rng, {}, None, True, []
        self.preview = None     # (w, h, data)
        self.table = True; self.kw = k; self.offset_fix = {}; self.size0 = False; self.split = False
    def bytes(self):
        seed = self.rng.randrange(1 << 30)
        pos = {}; data = []
        for _ in range(6):
            rng = random.Random(seed); b = Boxes(rng, **self.kw); new = {}
            ts = []
            for i, t in enumerate(self.tracks):
                x = Trk(**{k: v for k, v in t.__dict__.items()})
                if isinstance(x.off, bytes): x.len = len(x.off) if not hasattr(x, "claim") else x.claim; x.off = pos.get(i, 0x1000)
                ts.append(track(b, x))
            table = None
            if self.table:
                p = pos.get("prvw", 0x1000) if self.preview else 0
                table = [(0x2000, 50), (p, 60 if p else 0), (0x3000, 9), (0, 0)][:rng.choice([4, 4, 3, 2])] if self.table is True else self.table
            head = [craw(b, self.blocks, self.thumb, table, self.version)] if self.version is not None else []
            if rng.random() < .85: head.append(mvhd(b))
            k = rng.randrange(len(ts) + 1)
            moov = b.box("moov", b.mix(ts + head, fixed=len(ts))) if not self.split else \
                b.box("moov", b.mix(ts[:k] + head, fixed=k)) + b.box("moov", b.mix(ts[k:], False))
            parts = {"moov": moov}
            if self.preview: parts["prvw"] = prvw(b, *self.preview)
            if rng.random() < .4: parts["xpkt"] = b.box("uuid", b"<x/>" * rng.randrange(9), XPKT)
            if rng.random() < .3: parts["free"] = b.box("free", bytes(rng.randrange(20)))
            names = list(parts); rng.shuffle(names)
            if rng.random() < .7: names.append("mdat")
            else: names.insert(rng.randrange(len(names) + 1) if not self.size0 else len(names), "mdat")
            out = b.box("ftyp", b"crx " + u32(1) + b"crx isom"[:rng.choice([8, 8, 4, 0])], wide=False)
            for n in names:
                if n == "mdat":
                    d = b""; at = []
                    order = [i for i, t in enumerate(self.tracks) if isinstance(t.off, bytes)]; rng.shuffle(order)
                    for i in order:
                        d += bytes(rng.randrange(7)); at.append((i, len(d))); d += self.tracks[i].off
                    wide = rng.random() < .3
                    h = 16 if wide else 8
                    for i, o in at: new[i] = len(out) + h + o
                    x = b.box("mdat", d, wide=wide)
                    if self.size0 and not wide: x = u32(0) + x[4:]
                    out += x
                else:
                    if n == "prvw": new["prvw"] = len(out)
                    out += parts[n]
            if new == pos: return out
            pos = new
        raise AssertionError("layout")
