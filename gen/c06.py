from .rawtiff import *
from . import c13, mrwgen
RW2K = ["Main", "Other", "Other", "Other"]
def d100(rng, w=None, bits=12, model="NIKON D100 "):
    hint = "NEF"; t = start(rng, hint); main = t.dir()
    d, _ = rawdir(rng, t, hint, main)
    w = w or rng.choice([4, 14, 24, 34, 34, 54, 7]); h = rng.randrange(1, 6)
    n = (w + 6) // 10 * 16 * h
    data = bytes(rng.randrange(256) for _ in range(max(0, n + rng.choice([0, 0, 0, 1, 16, -1]))))
    main.e(271, 2, "NIKON CORPORATION"); main.e(272, 2, model)
    for tag, v in ((256, w), (257, h), (258, bits), (259, 34713), (262, 32803)): d.e(tag, rng.choice([3, 4]) if tag < 258 else 3, [v])
    d.e(273, 4, [t.blob(data)]); d.e(279, 4, [len(data)]); cfa(rng, d)
    return close(t)
def tiffraw(rng, hint):
    t = start(rng, hint); main = t.dir()
    d, _ = rawdir(rng, t, hint, main)
    comps = {"PEF": [1, None, 32773, 32773], "ORF": [1, None], "NEF": [1, 1, 32769]}.get(hint, [1, 1, 32769, 32773])
    bits = rng.choice([10, 12, 12, 12, 14, 14, 16])
    if hint == "ORF": return orf(rng, t, d)
    image(rng, t, d, hint, comps, w=rng.choice([1, 2, 3, 9, 10, 11, 20, 23, 30, 40, 50, 57]), h=rng.randrange(1, 5), bits=bits)
    return close(t)
def orf(rng, t, d):
    w = rng.choice([10, 10, 20, 30, 40, 50, 7]); h = rng.randrange(1, 6); full = rng.random() < .3
    n = 2 * w * h if full else w // 10 * 16 * h
    data = bytes(rng.randrange(256) for _ in range(max(0, n + rng.choice([0, 0, 0, 0, 1, 16, -1]))))
    for tag, v in ((256, w), (257, h), (258, 16), (259, 1)): d.e(tag, rng.choice([3, 4]) if tag < 258 else 3, [v])
    d.e(273, 4, [t.blob(data)]); d.e(279, 4, [len(data)]); cfa(rng, d)
    return close(t)
def cases(seed, tier):
    rng = random.Random(seed * 77 + 6)
    out = []
    def add(id, b, hint, kinds, strict=True, skip=False):
        out.append({"id": id, "file": b.hex(), "hint": hint, "mode": rng.choice(["mem", "io"]), "kinds": kinds, "strict": strict, "ops": [["raw", skip]]})
    k = 1 if tier == "quick" else 12
    for i in range(400 * k):
        hint = rng.choice(["DNG", "DNG", "NEF", "PEF", "ERF", "ARW"])
        add(f"{hint}-{i}", tiffraw(rng, hint), hint, K[hint], False)
    for i in range(120 * k): add(f"ORF-{i}", tiffraw(rng, "ORF"), "ORF", K["ORF"], False)
    for i in range(80 * k): add(f"d100-{i}", d100(rng), "NEF", K["NEF"], False)
    for i in range(150 * k): add(f"RW2-{i}", c13.rw2(rng, "packed", w=rng.choice([10, 20, 30, 40, 50]), h=rng.randrange(1, 6)), "RW2", RW2K, False)
    for i in range(150 * k): add(f"MRW-{i}", mrwgen.mrw(rng, w=rng.choice([1, 3, 8, 11, 21, 30]), h=rng.randrange(1, 6), packed=True, full=False), "MRW", ["Main"], False)
    r = random.Random(9)
    while True:
        b = d100(r, w=14)
        if len(b) % 7 == 1: break
    out.append({"id": "d100-known", "file": b.hex(), "hint": "NEF", "mode": "mem", "kinds": K["NEF"], "strict": True, "ops": [["raw", False]]})
    return out
ASSUME = ["padded encodings have rows of a multiple of 10 samples"]
