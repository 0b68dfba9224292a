import re
from .ciffgen import *
def trees():
    """the tables of the specification"""
    import os
    s = open(os.path.join(os.path.dirname(__file__), "../spec/Crw.tla")).read()
    v = [[int(x) for x in g.replace("\n", " ").split(",")] for g in re.findall(r"(?:bits|vals) \|-> <<([\d,\s]+)>>", s)]
    out = []
    for b, l in zip(v[0::2], v[1::2]):
        code = k = 0; m = {}
        for n, c in enumerate(b, 1):
            for _ in range(c): m[l[k]] = format(code, f"0{n}b"); k += 1; code += 1
            code <<= 1
        out.append(m)
    return out[:3], out[3:]
FIRST, SECOND = trees()
def blocks(rng, t, n):
    out = []
    small = rng.choice([3, 5, 7, 15])
    f = {k: v for k, v in FIRST[t].items() if k <= small or k == 255}
    s = [k for k in SECOND[t] if (k & 15) <= small]
    often = [k for k in s if len(SECOND[t][k]) < 8] or s
    # values that keep the samples in range, mostly
    for _ in range(n):
        i = 0
        while i < 64:
            k = rng.choice(list(f)) if i == 0 else rng.choice(often if rng.random() < .7 else s)
            if i and k == 0 and rng.random() < .7: continue
            out.append((FIRST if i == 0 else SECOND)[t][k])
            if k == 0 and i: break
            if k == 255: i += 1; continue
            i += k >> 4; l = k & 15
            if l: out.append("".join(rng.choice("01") for _ in range(l)) if rng.random() < .9 else rng.choice("01") * l)
            i += 1
    return "".join(out)
def stuff(bits, rng, fill):
    bits += fill * (-len(bits) % 8)
    b = int(bits, 2).to_bytes(len(bits) // 8, "big") if bits else b""
    return b"".join(bytes([x, 0]) if x == 255 else bytes([x]) for x in b)
def raw(rng, w, h, t, low):
    n = w * h; nb = (n + 63) // 64
    low = low and n // 4 > 1
    coef = stuff(blocks(rng, t, nb), rng, rng.choice("01"))
    noff = rng.random() < .15
    head = bytes(rng.randrange(255 if noff or not low else 256) for _ in range(514))
    if not low:
        k = rng.random()
        if k < .25: coef += b"\xff\0"
        elif b"\xff" not in coef[:-1]: coef += b"\xff\0"
        if rng.random() < .3: coef += bytes(rng.randrange(255) for _ in range(rng.randrange(20)))
        return head + coef
    plane = bytes(rng.randrange(256) for _ in range(n // 4))
    gap = bytearray(head)
    if b"\xff" in coef or b"\xff" in (plane + gap)[514:]:
        # a byte the test sees
        q = 514 - len(plane) + rng.randrange(len(plane) - 1)
        gap[q] = 255; gap[q + 1] = rng.choice([1, 255, 254, 128])
    return plane + bytes(gap) + coef
def crw(rng, damaged=False):
    c = Ciff(rng); r = rng.random
    w = rng.choice([2, 4, 8, 10, 16, 20, 30, 32, 40, 64, 66, 128, 1, 3, 7]); h = rng.choice([1, 2, 3, 4, 5, 8])
    while w * h > 330: h -= 1
    if rng.random() < .5: h += -(w * h) % 4
    t = rng.randrange(3); low = r() < .5
    data = raw(rng, w, h, t, low)
    if damaged:
        k = r()
        if k < .5: data = data[:rng.randrange(len(data) + 1)]
        elif k < .8:
            b = bytearray(data)
            for _ in range(4): b[rng.randrange(len(b))] = rng.randrange(256)
            data = bytes(b)
        elif k < .9: w, h = rng.choice([(0, h), (w, 0), (0, 0), (65535, 65535), (w + 1, h)])
    c.root.add(0x2005, data)
    c.props.add(0x1810, c.d(rng.choice([w, 100]), h, 0x3f800000, 0, rng.choice([8, 10, 12]), 24, 257))
    if r() < .98: c.exif.add(0x1835, c.d(rng.choice([t] * 9 + [3, 7, 0xffffffff]) if t == 2 else t, 0, 0, 0))
    if r() < .98: c.exif.add(0x1031, sensor(rng, c, w, h))
    if r() < .4: c.root.add(0x2007, bytes(rng.randrange(254) for _ in range(rng.randrange(20))))
    c.link()
    # the raw data last, when what comes before it could change what it is
    b = c.bytes()
    if damaged and r() < .2: b = b[:rng.randrange(26, len(b))]
    return b
REPEAT = 6
def cases(seed, tier):
    rng = random.Random(seed * 77 + 11)
    q = tier == "quick"; out = []
    def add(id, b, skip=False):
        out.append({"id": id, "file": b.hex(), "hint": "CRW", "mode": rng.choice(["mem", "io"]), "kinds": ["Main"], "ops": [["raw", skip]]})
    for i in range(500 if q else 9000): add(f"crw-{i}", crw(rng), rng.random() < .06)
    for i in range(140 if q else 3000): add(f"bad-{i}", crw(rng, damaged=True))
    return out
ASSUME = ["images up to 330 samples", "codes that the table doesn't have make an error, or any image"]
