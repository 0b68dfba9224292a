import struct
from .rawtiff import *
from . import mnote
from .ljpeggen import cat
from .c09 import signal
LEGACY = ([0, 2, 3, 1, 1, 1, 1, 1, 1, 2], [3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12])
def canon(bits, vals):
    code = k = 0; out = {}
    for l, n in enumerate(bits, 1):
        for _ in range(n): out[vals[k]] = (code, l); k += 1; code += 1
        code <<= 1
    return out
def rnd_table(rng):
    """codes of categories 0 .. depth-1, up to 12 bits"""
    depth = rng.choice([1, 2, 5, 13, 13, 14, 15, 15, 12, 13])
    while True:
        k = rng.random()
        if k < .3 and depth <= 12: lens = list(range(1, depth + 1))
        elif k < .7: lens = sorted(rng.randrange(2, 9) for _ in range(depth))
        else: lens = sorted(rng.randrange(1, 13) for _ in range(depth))
        if sum(2 ** (12 - l) for l in lens) <= 4096: break
    vals = list(range(depth)); rng.shuffle(vals)
    bits = [lens.count(l) for l in range(1, 13)]
    return canon(bits, vals)
def encode(rng, w, h, cs, v):
    top = max(cs); up = [[0, 0], [0, 0]]; left = [0, 0]; bits = []
    for y in range(h):
        for x in range(w):
            p = up[y & 1][x] if x < 2 else left[x & 1]
            d = v[y][x] - p
            if cat(d) > top: d = (1 << top) - 1 if d > 0 else -((1 << top) - 1)
            while cat(d) not in cs: d -= 1 if d > 0 else -1
            if x < 2: up[y & 1][x] = p + d
            left[x & 1] = p + d
            k = cat(d); c, l = cs[k]; bits.append(format(c, f"0{l}b"))
            if k: bits.append(format(d if d > 0 else d + (1 << k) - 1, f"0{k}b"))
    s = "".join(bits); s += rng.choice("01") * (-len(s) % 8)
    return int(s, 2).to_bytes(len(s) // 8, "big") if s else b""
def table(rng, le, cs):
    e = "<" if le else ">"; n = len(cs)
    d = (n - 12) & 15; d += rng.choice([0, 0, 16])
    return struct.pack(e + "H", d) + bytes(rng.randrange(256) for _ in range(12)) + b"".join(struct.pack(e + "H", cs[c][0] << (12 - cs[c][1])) for c in range(n)) \
        + bytes(cs[c][1] for c in range(n)) + bytes(rng.randrange(4))
def pef(rng, damaged=False, comp=None):
    t = start(rng, "PEF"); m = t.dir()
    bpc = rng.choice([12, 12, 14]); own = rng.random() < .6
    w, h = 2 * rng.randrange(1, 12), rng.randrange(1, 8)
    if rng.random() < (.1 if damaged else .02): w += 1
    cs = rnd_table(rng) if own else canon(*LEGACY)
    tab = table(rng, t.le, cs)
    v = signal(rng, w, h, (1 << bpc) - 1 if rng.random() < .9 else 65535)
    data = encode(rng, w, h, cs, v)
    r = rng.random()
    if r < .3: data += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9)))
    if damaged:
        r = rng.random()
        if r < .35: data = data[:rng.randrange(len(data) + 1)]
        elif r < .6: tab = tab[:rng.randrange(len(tab) + 1)]
        else:
            tab = bytearray(tab)
            for _ in range(rng.choice([1, 2])): tab[rng.randrange(len(tab))] = rng.choice([0, 1, 12, 13, 16, 255, rng.randrange(256)])
            if rng.random() < .3: tab[0:2] = rng.choice([b"\0\4", b"\4\0", b"\0\0", b"\5\0"])
    for tag, x in ((256, w), (257, h)): m.e(tag, 4, [x])
    m.e(258, 3, [bpc]); m.e(259, 3, [65535]); m.e(262, 3, [32803])
    if rng.random() < .8: m.e(33422, 1, rng.choice(CFAS))
    m.e(273, 4, [t.blob(data)]); m.e(279, 4, [len(data)])
    if own or rng.random() < .8:
        ex = t.dir(); m.e(34665, 4, [ex])
        g, md = mnote.note(t, rng.choice(["aoc"] * 6 + ["pentax"]))
        ex.at(37500, 7, g, g)
        if own: md.e(544, rng.choice([7, 7, 7, 1]), tab)
    if rng.random() < .3: m.e(272, 2, "PENTAX K10D")
    return close(t)
REPEAT = 5
def cases(seed, tier):
    rng = random.Random(seed * 77 + 10)
    q = tier == "quick"; out = []
    def add(id, b, skip=False):
        out.append({"id": id, "file": b.hex(), "hint": "PEF", "mode": rng.choice(["mem", "io"]), "kinds": K["PEF"], "ops": [["raw", skip]]})
    for i in range(420 if q else 8000): add(f"pef-{i}", pef(rng), rng.random() < .06)
    for i in range(160 if q else 3000): add(f"bad-{i}", pef(rng, damaged=True))
    return out
ASSUME = ["images up to 22 by 7 samples", "the stated codes are the canonical ones of their lengths; other tables are only run", "data that ends early, and codes that the table doesn't have, give the compressed data or any complete image"]
