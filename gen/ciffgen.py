"""Canon CIFF files."""
import random, struct
from .jpeggen import jpeg, broken
class Rec:
    """a record: code without storage bits, data bytes or a Heap; inline records have 8 bytes"""
    def __init__(self, code, data, inline=False): self.code, self.data, self.inline = code, data, inline
class Heap:
    def __init__(self, le, rng): self.le, self.rng, self.rs, self.tail = le, rng, [], b""
    def add(self, code, data, inline=False): self.rs.append(Rec(code, data, inline)); return self
    def bytes(self, fix=None):
        e = "<" if self.le else ">"; rng = self.rng
        order = list(self.rs); rng.shuffle(order)
        body = b""; where = {}
        for r in order:
            if r.inline: continue
            d = r.data.bytes() if isinstance(r.data, Heap) else r.data
            body += b"\xa5" * rng.choice([0, 0, 0, 1, 2, 5])
            where[r] = (len(body), len(d)); body += d
        body += b"\0" * (len(body) & 1)
        start = len(body)
        t = struct.pack(e + "H", len(self.rs))
        for r in self.rs:
            if r.inline: t += struct.pack(e + "H", r.code | rng.choice([0x4000, 0x4000, 0x4000, 0x8000, 0xc000])) + (r.data + b"\0" * 8)[:8]
            else: t += struct.pack(e + "HII", r.code, where[r][1], where[r][0])
        body += t + b"\x5a" * rng.choice([0, 0, 0, 2, 7])
        return body + struct.pack(e + "I", start)
MODELS = [(0x01100000, "Canon PowerShot G2"), (0x01140000, "Canon EOS D30"), (0x01668000, "Canon EOS D60"), (0x80000168, "Canon EOS 10D"), (0x80000170, "Canon EOS 300D DIGITAL"),
          (0x01370000, "Canon PowerShot Pro1"), (0x01400000, "Canon PowerShot G6"), (0x01290000, "Canon PowerShot G5"), (0x04040000, "Canon PowerShot G1")]
def header(rng, le, n=26, magic=b"HEAPCCDR"):
    return (b"II" if le else b"MM") + struct.pack(("<" if le else ">") + "I", n) + magic + struct.pack(("<" if le else ">") + "I", 0x00010002) + bytes(8)
def text(rng, n=12): return bytes(rng.choice(b"abcXYZ 019.-") for _ in range(rng.randrange(1, n)))
class Ciff:
    """the parts of a file, for the scenarios to fill"""
    def __init__(self, rng, le=None):
        self.rng = rng; self.le = le = rng.random() < .75 if le is None else le; self.e = "<" if le else ">"
        self.root, self.props, self.camera, self.exif = Heap(le, rng), Heap(le, rng), Heap(le, rng), Heap(le, rng)
    def w(self, *v): return struct.pack(self.e + f"{len(v)}H", *[x & 0xffff for x in v])
    def d(self, *v): return struct.pack(self.e + f"{len(v)}I", *[x & 0xffffffff for x in v])
    def link(self, shuffle=True):
        self.props.add(0x2807, self.camera).add(0x300b, self.exif); self.root.add(0x300a, self.props)
        if shuffle:
            for h in (self.root, self.props, self.camera, self.exif): self.rng.shuffle(h.rs)
    def bytes(self): return header(self.rng, self.le) + self.root.bytes()
def sensor(rng, c, w, h):
    l, t = rng.randrange(0, 9), rng.randrange(0, 9)
    return c.w(18, w, h, 1, 1, l, t, rng.choice([l + rng.randrange(1, 40)] * 12 + [l, 0]), rng.choice([t + rng.randrange(1, 40)] * 12 + [t, 0]), 0, 0, 0, 0)
