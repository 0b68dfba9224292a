import struct
from .rawtiff import *
from . import mnote
from .ljpeggen import cat
TREES = {"lossy12": ([0, 1, 5, 1, 1, 1, 1, 1, 1, 2], [5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12]),
         "lossy14": ([0, 1, 4, 2, 2, 3, 1, 2], [5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14]),
         "lossless14": ([0, 1, 4, 2, 2, 3, 1, 2], [7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14])}
def codes(t):
    bits, vals = TREES[t]; code = k = 0; out = {}
    for l, n in enumerate(bits, 1):
        for _ in range(n):
            if k < len(vals): out[vals[k]] = (code, l); k += 1
            code += 1
        code <<= 1
    return out
def signal(rng, w, h, m):
    """values of the predictors, 0 to m"""
    k = rng.random()
    if k < .3: return [[rng.randrange(m + 1) for _ in range(w)] for _ in range(h)]
    if k < .45: return [[rng.choice([0, m, m >> 1]) for _ in range(w)] for _ in range(h)]
    amp = max(1, m >> rng.randrange(2, 11)); base = rng.randrange(m + 1); a, b = rng.randrange(-9, 10), rng.randrange(-9, 10)
    return [[min(m, max(0, base + a * x + b * y + rng.randrange(-amp, amp + 1))) for x in range(w)] for y in range(h)]
def encode(v, w, h, pred, tree, rng=None):
    """the stream, with the differences that a tree cannot hold made smaller; changes v"""
    cs = codes(tree); up = [list(pred[:2]), list(pred[2:])]; left = [0, 0]; bits = []
    top = max(cs)
    for y in range(h):
        for x in range(w):
            p = up[y & 1][x] if x < 2 else left[x & 1]
            d = v[y][x] - p
            lim = (1 << top) - 1
            d = max(-lim, min(lim, d)); v[y][x] = p + d
            if x < 2: up[y & 1][x] = v[y][x]
            left[x & 1] = v[y][x]
            k = cat(d); c, l = cs[k]; bits.append(format(c, f"0{l}b"))
            if k: bits.append(format(d if d > 0 else d + (1 << k) - 1, f"0{k}b"))
    s = "".join(bits); s += "0" * (-len(s) % 8)
    return int(s, 2).to_bytes(len(s) // 8, "big") if s else b""
def table(rng, le, kind, bpc, pred):
    e = "<" if le else ">"
    p = struct.pack(e + "4H", *pred)
    if kind == "lossless": return bytes([0x46, 0x30]) + p + (struct.pack(e + "H", rng.choice([0, 16, 0xffff])) if rng.random() < .8 else b"") + bytes(rng.randrange(20))
    if kind == "points":
        n = rng.choice([2, 3, 5, 9, 17, 17, 33, 257, 33, 65] + [rng.randrange(2, 60)])
        return bytes([0x44, 0x20]) + p + struct.pack(e + "H", n) + struct.pack(e + f"{n}H", *curve(rng, n, bpc)) + bytes(2) + bytes(rng.randrange(8))
    n = rng.choice([1, 2, 100, 683, 300, 50])
    h = b"\x44\x10" if kind == "direct" else b"\x49" + bytes([rng.choice([0x30, 0x10])]) + bytes(rng.randrange(256) for _ in range(2110))
    return h + p + struct.pack(e + "H", n) + struct.pack(e + f"{n}H", *curve(rng, n, bpc)) + bytes(rng.randrange(8))
def curve(rng, n, bpc):
    m = (1 << bpc) - 1
    if rng.random() < .7:
        v = sorted(rng.randrange(m + 1) for _ in range(n))
        return v
    return [rng.randrange(m + 1) for _ in range(n)]
def nef(rng, kind=None, damaged=False):
    t = start(rng, "NEF"); m = t.dir()
    bpc = rng.choice([12, 14]); kind = kind or rng.choice(["lossless", "lossless", "points", "points", "direct", "direct", "old"])
    if kind == "lossless": bpc = rng.choice([14] * 14 + [12])
    tree = kind if kind == "lossless" else "lossy"; tree += str(bpc)
    w, h = rng.randrange(2, 24), rng.randrange(1, 8)
    if rng.random() < .05: w = 1
    pred = [rng.choice([0x148, 0, rng.randrange(1 << bpc)]) for _ in range(4)]
    nle = t.le if rng.random() < .8 else not t.le
    tab = table(rng, nle, kind, bpc, pred)
    top = (1 << bpc) - 1
    n = struct.unpack_from(("<" if nle else ">") + "H", tab, 10)[0] if kind == "direct" else 0
    v = signal(rng, w, h, max(3, n - 1) if kind == "direct" and rng.random() < .8 else top)
    data = encode(v, w, h, pred, tree if tree in TREES else "lossless14")
    if rng.random() < .2: data += bytes(rng.randrange(256) for _ in range(rng.randrange(5)))
    if damaged:
        r = rng.random()
        if r < .3: data = data[:rng.randrange(len(data) + 1)]
        elif r < .6: tab = tab[:rng.randrange(len(tab) + 1)]
        elif r < .8: tab = bytes([rng.choice([0x44, 0x46, 0x49, 0x45, 0]), rng.choice([0x20, 0x10, 0x30])]) + tab[2:]
        else: tab = tab[:10] + rng.choice([b"\0\0", b"\xff\xff", b"\0\1", b"\1\0", b"\x40\x01", b"\x80\x80"]) + tab[12:]
    d = m
    if rng.random() < .7: m.e(254, 4, [1]); d = t.dir(); o = t.dir(); o.e(254, 4, [1]); m.e(330, 4, rng.choice([[d], [o, d], [d, o]]))
    d.e(254, 4, [0])
    for tag, x in ((256, w), (257, h)): d.e(tag, 4, [x])
    bits = bpc if not (damaged and rng.random() < .1) else rng.choice([8, 16, 15])
    d.e(258, 3, [bits]); d.e(259, 3, [34713]); d.e(262, 3, [32803])
    if rng.random() < .8: d.e(33422, 1, rng.choice(CFAS))
    d.e(273, 4, [t.blob(data)]); d.e(279, 4, [len(data)])
    if rng.random() < .97:
        ex = t.dir(); m.e(34665, 4, [ex])
        g, md = mnote.note(t, "nikon3" if nle != t.le else rng.choice(["nikon3"] * 8 + ["none"]), le=nle)
        ex.at(37500, 7, g, g)
        if rng.random() < .6: md.e(4, 2, rng.choice(["RAW    ", "NRW", "FINE"]))
        if rng.random() < .97: md.e(150, 7, tab)
        if damaged and rng.random() < .2: t.last(g)
    if rng.random() < .5: m.e(272, 2, rng.choice(["NIKON D70", "NIKON D300", "X", "NIKON D3"]))
    return close(t)
REPEAT = 6
def cases(seed, tier):
    rng = random.Random(seed * 77 + 9)
    q = tier == "quick"; out = []
    def add(id, b, skip=False):
        out.append({"id": id, "file": b.hex(), "hint": "NEF", "mode": rng.choice(["mem", "io"]), "kinds": K["NEF"], "ops": [["raw", skip]]})
    for i in range(420 if q else 8000): add(f"nef-{i}", nef(rng), rng.random() < .06)
    for i in range(160 if q else 3000): add(f"bad-{i}", nef(rng, damaged=True))
    return out
ASSUME = ["images up to 23 by 7 samples", "predictors outside of the curve (0 to its last point, or 16383) have unspecified samples", "the second tree of a split image isn't used by the library, and not specified"]
