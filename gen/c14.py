from .rawtiff import *
def matrix(rng):
    k = rng.random()
    if k < .3: m = [10, 0, 0, 0, 10, 0, 0, 0, 10]
    elif k < .5: m = [rng.choice([5, 7, 12, -8]) if i % 4 == 0 else 0 for i in range(9)]
    elif k < .9: m = [rng.randrange(6, 16) if i % 4 == 0 else rng.randrange(-5, 5) for i in range(9)]
    else: m = [rng.randrange(-15, 16) for _ in range(9)]
    r = rng.random()
    if r < .05: m[3:6] = m[:3]      # singular
    return m
def samples(rng, n, bpc, black, white):
    hi = (1 << bpc) - 1
    k = rng.random()
    if k < .3: f = lambda: rng.randrange(hi + 1)
    elif k < .6: f = lambda: min(hi, max(0, rng.randrange(black, max(black, white) + 1)))
    elif k < .8: b = rng.randrange(black, max(black, white) + 1); f = lambda: min(hi, max(0, b + rng.randrange(-20, 21)))
    else: f = lambda: rng.choice([0, black, min(hi, white), hi, min(hi, (black + white) // 2)])
    return [f() for _ in range(n)]
def levels(rng, bpc):
    hi = (1 << bpc) - 1
    r = rng.random()
    if r < .5: return rng.randrange(0, hi // 8 + 1), hi
    if r < .9: b = rng.randrange(0, hi // 2 + 1); return b, rng.randrange(b + 1, hi + 1)
    if r < .95: return 0, 65535
    return rng.choice([(hi, hi), (hi, 0), (0, 0)])
def direct(rng, i):
    bpc = rng.choice([8, 10, 12, 12, 14, 16]); b, w_ = levels(rng, bpc)
    w, h = (rng.randrange(3, 12), rng.randrange(3, 10)) if rng.random() < .93 else (rng.randrange(1, 4), rng.randrange(1, 4))
    n = w * h + rng.choice([0] * 9 + [3, -1])
    q = {"fn": "rgb", "w": w, "h": h, "bpc": bpc, "data": samples(rng, max(0, n), bpc, b, w_),
         "cfa": rng.choice(["RGGB", "GBRG", "BGGR", "GRBG"] * 5 + ["NONE"]), "blacks": [b] * 4, "whites": [w_] * 4,
         "photom": rng.choice([32803] * 6 + [34892] * 2 + [2]), "cm1": [], "cm2": [], "i1": 21, "i2": 21}
    r = rng.random()
    if r < .8: q["cm1"] = matrix(rng)
    if r > .5: q["cm2"] = matrix(rng); q["i1"] = rng.choice([17, 21, 17])
    if rng.random() < .05: q["i2"] = 23
    if rng.random() < .05: q["cm1"] = q["cm1"][:rng.choice([3, 8])] + [1] * rng.choice([0, 4])
    opts = [[3, 3], [2, 3], [1, 3], [1, 1], [2, 1], [3, 3]] + [[3, rng.choice([0, 1, 2])]] + ([[0, 3]] if rng.random() < .3 else [])
    q["opts"] = opts if rng.random() < .3 else rng.sample(opts, 4)
    return {"id": f"img-{i}", "direct": [q]}
def dng(rng, i):
    t = start(rng, "DNG"); m = t.dir(); m.e(50706, 1, [1, 3, 0, 0]); d = m
    if rng.random() < .6: d = t.dir(); m.e(254, 4, [1]); m.e(330, 4, [d])
    d.e(254, 4, [0])
    w, h = rng.randrange(3, 10), rng.randrange(3, 8)
    if rng.random() < .08: w = rng.randrange(1, 4)
    bits = rng.choice([8, 8, 12, 14, 16])
    b, w_ = levels(rng, bits)
    v = samples(rng, w * h, bits, b, w_)
    lin = rng.random() < .4 and bits == 8
    if bits == 8: data = bytes(v)
    else: data = b"".join(x.to_bytes(2, "little" if t.le else "big") for x in v)
    for tag, x in ((256, w), (257, h)): d.e(tag, 4, [x])
    d.e(258, 3, [bits]); d.e(259, 3, [rng.choice([1] * 9 + [7])]); d.e(262, 3, [rng.choice([32803] * 4 + [34892, 1])])
    d.e(273, 4, [t.blob(data)]); d.e(279, 4, [len(data)])
    if rng.random() < .95: d.e(33422, 1, rng.choice(CFAS))
    if lin: d.e(50712, 3, sorted(rng.randrange(w_ + 2) for _ in range(rng.choice([256, 256, 256, 100]))))
    if rng.random() < .8: d.e(50714, rng.choice([3, 4]), [b] * rng.choice([1, 4]))
    if rng.random() < .8: d.e(50717, rng.choice([3, 4]), [w_] * rng.choice([1, 4]))
    for k in (0, 1):
        if rng.random() < .7: m.e(50721 + k, 10, [y for x in matrix(rng) for y in (x, 10)])
        if rng.random() < .8: m.e(50778 + k, 3, [rng.choice([17, 21, 21, 23])])
    return {"id": f"dng-{i}", "file": close(t).hex(), "hint": "DNG", "mode": rng.choice(["mem", "io"]), "kinds": K["DNG"],
            "ops": rng.sample([["render", 3, 3], ["render", 2, 3], ["render", 1, 3], ["render", 3, 3], ["render", 0, 3], ["render", 3, 1]], 3)}
REPEAT = 5
def cases(seed, tier):
    rng = random.Random(seed * 77 + 14)
    q = tier == "quick"
    return [direct(rng, i) for i in range(320 if q else 6000)] + [dng(rng, i) for i in range(160 if q else 3000)]
ASSUME = ["images up to 11 by 9; the four levels are the same; matrices have entries in tenths; colours within the precision of the fixed point computation", "values of images where white is not above black are unspecified"]
