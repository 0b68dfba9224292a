from .rawtiff import *
def chunk(rng):
    """a chunk of 14 pixels from chosen fields"""
    style = rng.random()
    if style < .2: return bytes(rng.randrange(256) for _ in range(16))
    if style < .25: return bytes(16)
    bits = ""; nz = [False, False]
    pz = rng.choice([0, .1, .4, .8, .97])
    for i in range(14):
        if i % 3 == 2: bits += format(rng.choice([0, 1, 2, 3, 3]), "02b")
        j = 0 if rng.random() < pz else rng.choice([1, 2, 127, 128, 129, 255, 255, rng.randrange(256)])
        bits += format(j, "08b")
        if not nz[i & 1]:
            nz[i & 1] = j != 0
            if j or i > 11: bits += format(rng.choice([0, 15, rng.randrange(16)]), "04b")
    assert len(bits) == 128, len(bits)
    return int(bits, 2).to_bytes(16, "big")[::-1]
def blocks(rng, n):
    out = b""
    for _ in range(n):
        rot = b"".join(chunk(rng) for _ in range(1024))
        out += rot[-0x1ff8:] + rot[:-0x1ff8]
    return out
def rw2(rng, kind, w=None, h=None):
    t = Tiff(True, rng, gaps=True, head=b"IIU\0")
    d = t.dir(); direct = rng.random() < (.5 if kind == "short" else .1)
    comp = rng.choice([34316, 34316, 34316, None, 1, 34826, 34828, 5])
    if kind == "coded":
        w = 14 * rng.choice([1, 2, 16, 64]); h = 14336 // w
        nb = rng.choice([1, 1, 1, 1, 2]); h *= nb
        if rng.random() < .3: h -= rng.randrange(1, max(2, h // 8))
        data = blocks(rng, nb); comp = 34316
        if rng.random() < .12: h += rng.choice([1, 3])   # too few pixels in the data
        elif rng.random() < .1: data += b"\0" * rng.choice([1, 16, 0x2000])
    else:
        w = w or rng.choice([1, 2, 5, 10, 10, 20, 30, 11]); h = h or rng.randrange(1, 7)
        n = {"unpacked": 2 * w * h, "packed": w // 10 * 16 * h, "short": rng.randrange(3 * w * h // 2 + 1)}[kind]
        data = bytes(rng.randrange(256) for _ in range(max(0, n + rng.choice([0, 0, 0, 0, 1, 2, -1, -2]))))
    b = t.blob(data)
    t.last(b)
    S = lambda tag, v, p=.8, typ=3: d.e(tag, typ, [v]) if rng.random() < p else None
    S(2, w, .97, rng.choice([3, 3, 4])); S(3, h, .97, rng.choice([3, 4]))
    S(4, rng.choice([0, 1, 4])); S(5, rng.choice([0, 2, 8])); S(6, rng.choice([h, 3, 0])); S(7, rng.choice([w, 5, 1]))
    S(9, rng.choice([1, 2, 3, 4, 0, 5])); S(10, rng.choice([12, 12, 12, 14, 16, 10, 32, 40, 8]))
    if comp is not None: d.e(11, 3, [comp])
    for tag in (14, 15, 16): S(tag, rng.choice([4095, 0xf92, 16383, 65535]), .8, rng.choice([3, 3, 4]))
    for tag in (28, 29, 30): S(tag, rng.choice([0, 15, 143, 512]), .8, rng.choice([3, 3, 4]))
    for tag in (17, 18): S(tag, rng.choice([256, 300, 512, rng.randrange(1, 2000), 0]), .7)
    for tag in (36, 37, 38): S(tag, rng.choice([256, rng.randrange(1, 2000)]), .7)
    if rng.random() < .5: S(45, rng.choice([4, 6]))
    if direct: d.e(280, 4, [b if rng.random() < .95 else rng.choice([1 << 24, 0xffffffff])])
    if not direct or rng.random() < .5:
        if rng.random() < .97: d.e(273, 4, [b if rng.random() < .95 else rng.choice([1 << 24, 0xfffffff0])])
        if rng.random() < .97: d.e(279, 4, [rng.choice([len(data)] * 8 + [0xffffffff, max(0, len(data) - 2), 0])])
    return close(t)
REPEAT = 4
def cases(seed, tier):
    rng = random.Random(seed * 77 + 13)
    out = []
    K2 = ["Main", "Other", "Other", "Other"]
    for i in range(28 if tier == "quick" else 160):
        out.append({"id": f"coded-{i}", "file": rw2(rng, "coded").hex(), "hint": "RW2", "mode": rng.choice(["mem", "io"]), "kinds": K2, "ops": [["raw", False]] + ([["raw", True]] if i % 4 == 0 else [])})
    for i in range(500 if tier == "quick" else 8000):
        b = rw2(rng, rng.choice(["unpacked", "unpacked", "packed", "packed", "packed", "short"]))
        if rng.random() < .05: b = b[:rng.randrange(8, len(b))]
        out.append({"id": f"plain-{i}", "file": b.hex(), "hint": "RW2", "mode": rng.choice(["mem", "io"]), "kinds": K2, "ops": [["raw", False], ["raw", True]]})
    return out
ASSUME = ["compressed images whose rows are whole groups of 14 pixels", "level tags below 65536"]
