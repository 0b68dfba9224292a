"""Minolta MRW files."""
import random, struct
from .tiffgen import *
from .c02 import fill
VERSIONS = ["21860002", "21810002", "27730001", "27660001", "27790001", "27780001", "27820001", "27200001", "27470002", "27470000", "27200002"]
def ttw(rng, preview=True):
    le = rng.random() < .3
    t = Tiff(le, rng, gaps=True)
    m = t.dir(); fill(rng, t, m, rng.randrange(5))
    m.e(271, 2, rng.choice(["Minolta Co., Ltd.", "KONICA MINOLTA"])); m.e(274, 3, [rng.randrange(1, 9)])
    if rng.random() < .9:
        ex = t.dir(); fill(rng, t, ex, rng.randrange(4)); m.e(34665, 4, [ex])
        g = t.group(le, pad=20); d = g.dir()
        if rng.random() < .93: d.e(0, 7, b"MLT0")
        d.e(1, 7, bytes(rng.randrange(256) for _ in range(rng.choice([4, 8, 40]))))
        if rng.random() < .5: d.e(3, 4, [rng.randrange(1 << 31) for _ in range(3)])
        if preview:
            img = rng.choice([b"\x02", b"\xff", b"\x00"]) + b"\xd8\xff\xdb" + bytes(rng.randrange(256) for _ in range(rng.randrange(40)))
            b = t.blob(img)
            r = rng.random()
            if r < .35: d.at(0x81, rng.choice([7, 7, 7, 1]), len(img) if rng.random() < .85 else 100000, b)
            if r > .3:
                if rng.random() < .95: d.at(0x88, 4, 1, 0); d.es[-1] = (0x88, 4, 1, Value(t, 4, [b if rng.random() < .9 else rng.choice([0, 1000000])]), True)
                if rng.random() < .95: d.e(0x89, 4, [rng.choice([len(img)] * 8 + [0, 3, 99999])])
        d.es.sort(key=lambda e: e[0])
        ex.at(37500, 7, g, g); ex.es.sort(key=lambda e: e[0])
    m.es.sort(key=lambda e: e[0])
    return t.bytes()
def mrw(rng, w=None, h=None, packed=None, full=True, end=">"):
    w = w or rng.choice([1, 2, 3, 5, 10, 11]); h = h or rng.randrange(1, 6)
    packed = (rng.random() < .5) if packed is None else packed
    bay = rng.choice([1, 1, 4, 4, 0, 2])
    prd = rng.choice(VERSIONS).encode() + struct.pack(end + "HHHH", h, w, h - 1, w - 1) + bytes([12 if packed else 16, rng.choice([12, 12, 10, 14]), 0x59 if packed else rng.choice([0x52, 0x52, 0x58])])
    prd += bytes([rng.randrange(256)]) + struct.pack(end + "HH", 0, bay)
    den = [rng.randrange(3) for _ in range(4)]
    wbg = bytes(den) + struct.pack(end + "4H", *[rng.choice([rng.randrange(1, 2000), rng.randrange(1, 20000), 0]) if rng.random() < .1 else rng.randrange(64, 1000) for _ in range(4)])
    blocks = []
    if rng.random() < .97: blocks.append((b"\0PRD", prd))
    if rng.random() < .9: blocks.append((b"\0WBG", wbg))
    if rng.random() < .9 and full: blocks.append((b"\0TTW", ttw(rng)))
    if rng.random() < .6: blocks.append((b"\0RIF", bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 60])))))
    if rng.random() < .6: blocks.append((rng.choice([b"\0PAD", b"\0XYZ", b"\1PRX"]), bytes(rng.choice([0, 1, 7, 30]))))
    if rng.random() < .08 and blocks: blocks.append((blocks[0][0], blocks[0][1][:rng.choice([8, 30])]))
    rng.shuffle(blocks)
    body = b"".join(n + struct.pack(end + "I", len(d)) + d for n, d in blocks)
    n = w * h
    size = (n * 3 + 1) // 2 if packed else 2 * n
    data = bytes(rng.randrange(256) for _ in range(size + rng.choice([0, 0, 0, 1, 5, -1]) if n > 1 else size))
    pos = rng.choice([0] * 30 + [1, -3, 1 << 20, 0xffffff00])
    return b"\0MRM" + struct.pack(end + "I", (len(body) + pos) & 0xffffffff) + body + data
