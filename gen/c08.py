from .rawtiff import *
from . import ljpeggen as lj
from .c07 import cr2
def tile_stream(rng, v, tw, th, prec):
    """the samples of a tile (rows), as one of the frames that make as many"""
    n = rng.choice([k for k in (1, 2, 2, 3, 4) if tw % k == 0])
    w, h = tw // n, th
    if rng.random() < .1:     # other frame sizes of the same number of samples
        flat = [x for r in v for x in r]
        if (tw * th) % 2 == 0 and rng.random() < .5: w, h, n = tw * th // 2, 1, 2
        else: w, h, n = tw * th, 1, 1
        v = [flat]
    return lj.encode(rng, w, h, n, prec, v, rrows=rng.choice([0, 0, 1, 2]))
def tiled(rng, good):
    t = start(rng, "DNG"); m = t.dir(); m.e(50706, 1, [1, 3, 0, 0])
    if rng.random() < .4: d = m
    else: m.e(254, 4, [1]); d = t.dir(); m.e(330, 4, [d])
    d.e(254, 4, [0])
    tw, th = rng.randrange(1, 9), rng.randrange(1, 7)
    w, h = rng.randrange(1, 22), rng.randrange(1, 16)
    prec = rng.choice([8, 12, 14, 16])
    across, down = -(-w // tw), -(-h // th)
    v = lj.picture(rng, across * tw, down * th, 1, prec)
    data = []
    for r in range(down):
        for c in range(across):
            data.append(tile_stream(rng, [row[c * tw:(c + 1) * tw] for row in v[r * th:(r + 1) * th]], tw, th, prec))
    if not good:
        r = rng.random()
        if r < .3: i = rng.randrange(len(data)); data[i] = lj.damage(rng, data[i])
        elif r < .5: data[rng.randrange(len(data))] = b""
        elif r < .65: data = data[:rng.randrange(len(data) + 1)] or [b""]
        elif r < .75: i = rng.randrange(len(data)); data[i] = lj.stream(rng, rng.randrange(1, 6), rng.randrange(1, 5), 1)
        elif r < .85: tw = rng.choice([0, 1, tw + 1, 200])
        else: th = rng.choice([0, 1, th + 1, 200])
    elif rng.random() < .2: data += [data[0]]
    order = list(range(len(data))); rng.shuffle(order)
    blobs = {i: t.blob(data[i]) for i in order}
    offs = [blobs[i] for i in range(len(data))]; cnts = [len(x) for x in data]
    if not good and rng.random() < .1: offs[0] = 1 << 20
    for tag, x in ((256, w), (257, h), (322, tw), (323, th)): d.e(tag, rng.choice([3, 4]), [x])
    d.e(258, 3, [prec]); d.e(259, 3, [7]); d.e(262, 3, [32803])
    d.e(324, 4, offs); d.e(325, rng.choice([3, 4]), cnts)
    cfa(rng, d)
    return close(t), [v[y][x] for y in range(h) for x in range(w)]
def sliced(rng, good):
    n = rng.choice([1, 2, 2, 4, 4, 3]); double = n == 4 and rng.random() < .6
    jw, jh = rng.randrange(1, 9), rng.randrange(1, 7)
    W, H = (jw * 2, jh * 2) if double else (jw * n, jh)
    k = rng.randrange(0, 5); a = rng.randrange(1, max(2, W // (k or 1) + 1)); 
    while k and k * a >= W: k -= 1
    widths = [a] * k + [W - k * a]
    if n == 4 and not double and sum(widths) != jw * 4: widths = [W]; k = 0
    prec = rng.choice([8, 12, 14, 16])
    img = lj.picture(rng, W, H, 1, prec)
    flat = []; x = 0
    for s in widths:
        for y in range(H): flat += img[y][x:x + s]
        x += s
    rows = [flat[y * jw * n:(y + 1) * jw * n] for y in range(jh)]
    data = lj.encode(rng, jw, jh, n, prec, rows)
    sl = [k, a, W - k * a]
    if k == 0: sl[1] = rng.choice([0, a])
    if not good: sl = rng.choice([[k, a], [rng.randrange(5), rng.randrange(12), rng.randrange(12)], [k + 1, a, sl[2]], [rng.choice([65535, 65536, 1 << 31]), 1, 1], [2, (1 << 31) + 3, 4], [k, a, sl[2], 7], [0, 0, 0], [k, 0, W]])
    elif rng.random() < .1 and not double and n != 4: sl = None; img = rows
    return cr2(rng, data, sl, rng.choice([None, 1, 3])), [x for r in img for x in r] if good else None
REPEAT = 4
def cases(seed, tier):
    rng = random.Random(seed * 77 + 8)
    out = []
    q = tier == "quick"
    for i in range(160 if q else 3000):
        f, v = tiled(rng, True); out.append({"id": f"tiles-{i}", "file": f.hex(), "hint": "DNG", "mode": rng.choice(["mem", "io"]), "kinds": K["DNG"], "ops": [["raw", False], ["raw", True]], "src": v})
    for i in range(160 if q else 3000):
        f, _ = tiled(rng, False); out.append({"id": f"less-{i}", "file": f.hex(), "hint": "DNG", "mode": rng.choice(["mem", "io"]), "kinds": K["DNG"], "ops": [["raw", False]]})
    for i in range(160 if q else 3000):
        f, v = sliced(rng, True); out.append({"id": f"slices-{i}", "file": f.hex(), "hint": "CR2", "mode": rng.choice(["mem", "io"]), "kinds": K["CR2"], "ops": [["raw", False]], "src": v})
    for i in range(60 if q else 1000):
        f, _ = sliced(rng, False); out.append({"id": f"odd-{i}", "file": f.hex(), "hint": "CR2", "mode": rng.choice(["mem", "io"]), "kinds": K["CR2"], "ops": [["raw", False]]})
    return out
ASSUME = ["tiles up to 8 by 6, images up to 21 by 15, up to 5 slices", "the place of a tile that is missing or damaged is unspecified", "slices that do not add up to the width are ignored"]
