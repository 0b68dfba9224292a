"""Fujifilm RAF files."""
import json, os, random, struct
from .tiffgen import *
from .c02 import fill
from .mnote import note
from .jpeggen import jpeg, broken
CAMS = json.load(open(os.path.join(os.path.dirname(__file__), "../spec/data/cameras.json")))
XTRANS = [1,1,0,1,1,2, 1,1,2,1,1,0, 2,0,1,0,2,1, 1,1,2,1,1,0, 1,1,0,1,1,2, 0,2,1,2,0,1]
def roll(p, dy, dx): return [p[6 * ((y + dy) % 6) + (x + dx) % 6] for y in range(6) for x in range(6)]
def exif(rng, extra=None):
    t = Tiff(rng.random() < .5, rng, gaps=True)
    m = t.dir(); fill(rng, t, m, rng.randrange(5))
    if rng.random() < .95: m.e(271, 2, "FUJIFILM")
    m.e(274, 3, [rng.randrange(1, 9)])
    if rng.random() < .9:
        ex = t.dir(); fill(rng, t, ex, rng.randrange(4)); m.e(34665, 4, [ex])
        if rng.random() < .9:
            g, d = note(t, "fuji")
            for _ in range(rng.randrange(4)):
                tag = rng.choice([0x10, 0x1000, 0x1001, 0x1002, 0x1010, 0x1021, 0x1100, 0x1422, rng.randrange(0x2000)])
                ty = rng.choice([2, 3, 4, 7, 9, 10])
                v = {2: "text 12", 3: [rng.randrange(65536)], 4: [rng.randrange(1 << 31)], 7: bytes(rng.randrange(256) for _ in range(rng.choice([3, 8]))), 9: [-5], 10: [-3, 2]}[ty]
                d.e(tag, ty, v)
            d.es.sort(key=lambda e: e[0])
            ex.at(37500, 7, g, g); ex.es.sort(key=lambda e: e[0])
    if rng.random() < .85:
        b = t.dir(); m.next = b
        th = jpeg(rng, *rng.choice([(160, 120), (160, 120), (120, 160), (3, 2)]))
        if rng.random() < .1: th = broken(rng, th)
        if rng.random() < .95: b.e(513, 4, [t.blob(th) if rng.random() < .95 else 1000000])
        if rng.random() < .95: b.at(514, 4, 1, rng.choice([len(th), len(th), len(th), len(th) - 1, 100000, 10]))
    if extra: extra(m)
    m.es.sort(key=lambda e: e[0])
    return t.bytes()
def preview(rng, extra=None):
    r = rng.random()
    j = jpeg(rng, rng.choice([160, 640, 1920, 7]), rng.choice([120, 480, 1080, 9]), exif(rng, extra) if rng.random() < .9 else None)
    return broken(rng, j) if r < .06 else j
def pack14(vals):
    bits = "".join(format(v, "014b") for v in vals); bits += "0" * (-len(bits) % 32)
    b = int(bits, 2).to_bytes(len(bits) // 8, "big") if bits else b""
    return b"".join(b[i:i + 4][::-1] for i in range(0, len(b), 4))
def two(a, b): return struct.pack(">HH", a, b)
def raf(rng, w=None, h=None, payload=None, bps=None, model=None, pattern=None, tiff=None, odd=1.0, extra=None):
    """payload: compressed data; odd: how much goes wrong"""
    r = lambda p: rng.random() < p * odd
    w = w or rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 16]); h = h or rng.randrange(1, 7)
    model = model if model is not None else rng.choice(["X-T3", "X10", "XF1", "X-S1", "FinePix X100", "GFX 50R", "X-Nothing"] + [m["name"] for m in CAMS["models"]["RAF"]])
    tiff = rng.random() < .7 if tiff is None else tiff
    if pattern is None:
        p = rng.random()
        if p < .45: pattern = roll(XTRANS, rng.randrange(6), rng.randrange(6))
        elif r(.1): pattern = [rng.choice([0, 1, 2, 255, 3]) for _ in range(rng.choice([36, 36, 35, 0, 5, 9, 37]))]
        else: pattern = False
    # the raw data
    n = w * h
    comp = payload is not None
    if comp: kind = "comp"
    elif tiff: kind = rng.choice(["16", "12", "14", "14", "10"])
    else: kind = "16"
    bps = bps or {"comp": 14, "16": rng.choice([16, 14, 12]), "12": 12, "14": 14, "10": 10}[kind]
    if r(.03): bps = rng.choice([0, 8, 11, 13, 15, 32, 40])
    if comp: data = payload
    elif kind == "16": data = bytes(rng.randrange(256) for _ in range(2 * n))
    elif kind == "14": data = pack14([rng.randrange(1 << 14) for _ in range(n)]) + bytes(rng.choice([0, 0, 4, 3]))
    else: data = bytes(rng.randrange(256) for _ in range((w * int(kind) + 7) // 8 * h + rng.choice([0, 0, 1, 16])))
    size = len(data)
    if r(.06): size = max(0, size + rng.choice([-1, -3, 1, 8, 1000, 1 << 20, -size, (1 << 32) - 1 - size, -size // 2]))
    # description
    es = []
    def e(tag, v): es.append((tag, v))
    if not r(.05): e(0x100, two(h, w))
    top, left = rng.randrange(3), rng.randrange(3)
    if not r(.05): e(0x110, two(top, left))
    ah, aw = rng.choice([(h, w), (max(1, h - 2), max(1, w - 2)), (3296, 4936), (rng.randrange(1, 4000), rng.randrange(1, 6000))])
    if not any(t == 0x100 for t, _ in es): ah, aw = h, w
    if not r(.05): e(0x111, two(ah, aw))
    if not r(.1): e(0x115, two(*rng.choice([(2, 3), (3, 4), (1, 1), (9, 16), (24, 65), (rng.randrange(1, 50), rng.randrange(1, 50)), (0, 3) if r(.1) else (2, 3)])))
    if rng.random() < .5: e(0x117, struct.pack(">I", rng.choice([0, 1, 1, 2, 3])))
    if rng.random() < .5: e(0x118, two(rng.randrange(100), rng.randrange(100)))
    if rng.random() < .5: e(0x119, two(rng.randrange(1, 4000), rng.randrange(1, 6000)))
    if rng.random() < .5: e(0x121, two(h, w))
    info = (rng.choice([0, 0x80]) << 24) | ((rng.choice([8, 12]) if comp else rng.choice([0, 4, 8] if r(.2) else [0, 4])) << 16) | rng.randrange(65536)
    if not r(.03): e(0x130, struct.pack(">I", info) if not r(.02) else b"\0\0\0")
    if pattern is not False: e(0x131, bytes(reversed(pattern)))
    if not tiff or r(.05):
        wb = struct.pack(">4H", *[rng.choice([rng.randrange(1, 65536), 0]) if r(.05) else rng.randrange(150, 1200) for _ in range(4)])
        if not r(.1): e(0x2ff0, wb if not r(.1) else wb[:rng.choice([0, 1, 2, 4, 5, 7])])
    if rng.random() < .5: e(0x9650, struct.pack(">hh", rng.randrange(-3, 4), 3))
    if rng.random() < .7:
        out = [rng.choice([w, w + 1, 0x4000, 0xffffffff]) for _ in range(rng.randrange(3))] + [rng.choice([max(0, w - 1), max(0, w - 1), w]), h, 5]
        out = b"".join(struct.pack("<I", v) for v in out)[:rng.choice([100, 100, 100, 4, 6, 7, 8, 11])]
        e(0xc000, out + bytes(rng.choice([0, 0, 20, 1])))
    if r(.1) and es: es.append((es[0][0], es[0][1][::-1]))
    rng.shuffle(es)
    meta = struct.pack(">I", len(es) + (rng.choice([1, -1, 1 << 31, 0xffffff]) if r(.02) else 0)) + b"".join(struct.pack(">HH", t, len(v)) + v for t, v in es)
    # raw block
    if tiff:
        t = Tiff(rng.random() < .8, rng)
        m = t.dir(); d = t.dir()
        if rng.random() < .9: m.e(0xf000, rng.choice([4, 13]), [d])
        if rng.random() < .3: m.e(0x100, 4, [5])
        d.e(0xf001, 4, [w]); d.e(0xf002, 4, [h])
        if not r(.05): d.e(0xf003, 4 if not r(.1) else 3, [bps])
        b = t.blob(data)
        if not r(.03): d.e(0xf007, 4, [b if not r(.05) else rng.choice([0, 1 << 20, 0xffffffff])])
        if not r(.03): d.e(0xf008, 4, [size])
        k = rng.choice([4, 4, 36, 1, 9])
        if not r(.1): d.e(0xf00a, rng.choice([4, 4, 3]), [rng.randrange(1200) for _ in range(k)])
        if not r(.1): d.e(0xf00e, rng.choice([4, 4, 3]), [rng.randrange(150, 1200) for _ in range(rng.choice([3, 3, 3, 4, 2, 1] if r(.5) else [3]))])
        cfa = t.bytes(); clen = len(cfa)
    else:
        cfa = bytes(rng.choice([0, 0x49, 0xff]) for _ in range(2048)) + data; clen = 2048 + size
    if r(.02): clen = rng.choice([0, 1, 2047, 2048])
    parts = [("j", preview(rng, extra)), ("m", meta), ("c", cfa)]
    if rng.random() < .3: rng.shuffle(parts)
    start = rng.choice([148, 148, 136, 160]) if not r(.1) else 108
    pos, body, at = start, b"", {}
    for k, d in parts:
        g = rng.choice([0, 0, 4, 1]); body += b"\xa5" * g; pos += g
        at[k] = (pos, len(d)); body += d; pos += len(d)
    at["c"] = (at["c"][0], clen)
    if r(.02): k = rng.choice("jmc"); at[k] = (rng.choice([0, 1 << 20, 0xfffffff0, at[k][0] + 1]), at[k][1])
    if r(.01): k = rng.choice("jmc"); at[k] = (at[k][0], 0)
    head = (b"FUJIFILMCCD-RAW " + b"0201" + b"FF129502" + model.encode()[:32].ljust(32, b"\0") + b"0100" + bytes(20)
            + b"".join(struct.pack(">II", *[v & 0xffffffff for v in at[k]]) for k in "jmc") + bytes(12) + bytes(16))
    out = head[:start].ljust(start, b"\0") + body
    if r(.02): out = b"FUJIFILMCCD-RAX " + out[16:]
    if r(.05): out = out[:rng.randrange(20, len(out))]
    return out
