from .rawtiff import *
from . import ljpeggen as lj
def dng(rng, data, w, h, bits):
    t = start(rng, "DNG"); m = t.dir(); m.e(50706, 1, [1, 3, 0, 0])
    if rng.random() < .4: d = m
    else:
        m.e(254, 4, [1]); d = t.dir(); o = t.dir(); o.e(254, 4, [1]); m.e(330, 4, rng.choice([[d], [o, d], [d, o]]))
    d.e(254, 4, [0])
    for tag, v in ((256, w), (257, h)): d.e(tag, rng.choice([3, 4]), [v])
    d.e(258, 3, [bits]); d.e(259, 3, [7]); d.e(262, 3, [32803])
    d.e(273, 4, [t.blob(data)]); d.e(279, 4, [len(data)])
    return close(t)
def cr2(rng, data, slices, cfa=None):
    t = start(rng, "CR2"); ds = [t.dir() for _ in range(4)]
    for a, b in zip(ds, ds[1:]): a.next = b
    ds[0].e(256, 3, [16]); ds[1].e(513, 4, [0]); ds[2].e(256, 3, [8])
    d = ds[3]
    d.e(259, 3, [6]); d.e(273, 4, [t.blob(data)]); d.e(279, 4, [len(data)])
    if cfa is not None: d.e(50656, rng.choice([3, 4]), [cfa])
    if slices is not None: d.e(50752, rng.choice([3, 3, 4]) if max(slices) < 65536 else 4, slices)
    return close(t)
def tif(rng, data):
    """the files of the first EOS-1D: the maker note has the place of the stream"""
    from .mnote import note
    t = start(rng, "CR2"); m = t.dir(); ex = t.dir(); m.e(34665, 4, [ex])
    g, n = note(t, "none"); ex.at(37500, 7, g, g)
    n.e(0x10, 4, [rng.choice([0x80000001, 0x80000167])]); n.e(0x81, 4, [t.blob(data)])
    if rng.random() < .7: n.e(0x82, 4, [len(data)])
    if rng.random() < .7: m.next = d = t.dir(); d.next = o = t.dir(); o.next = z = t.dir(); z.e(273, 4, [8]); z.e(279, 4, [9])
    return close(t)
def case(rng, id, data, w, h, n, prec, src=None):
    c = case_(rng, id, data, w, h, n, prec)
    if src is not None: c["src"] = src
    return c
def case_(rng, id, data, w, h, n, prec):
    r = rng.random()
    if r < .7: return {"id": id, "direct": [{"fn": "ljpeg", "data": list(data), "raw": rng.random() < .5, "slices": [], "tiled": False}]}
    if r < .85: return {"id": id, "file": dng(rng, data, w * n, h, prec).hex(), "hint": "DNG", "mode": rng.choice(["mem", "io"]), "kinds": K["DNG"], "ops": [["raw", False]]}
    return {"id": id, "file": (tif(rng, data) if r > .92 else cr2(rng, data, None)).hex(), "hint": "CR2", "mode": rng.choice(["mem", "io"]), "kinds": K["CR2"], "ops": [["raw", False]]}
REPEAT = 6
def cases(seed, tier):
    rng = random.Random(seed * 77 + 7)
    out = []
    q = tier == "quick"
    for i in range(450 if q else 8000):
        n = rng.choice([1, 2, 2, 3, 4]); w = rng.randrange(1, 13); h = rng.randrange(1, 9)
        if rng.random() < .05: w, h = rng.choice([(60, 3), (1, 20), (40, 6)])
        prec = rng.choice([2, 8, 10, 12, 12, 14, 14, 15, 16, 16])
        pt = rng.choice([0, 0, 0, 1, 2]) if prec > 3 else 0
        v = lj.picture(rng, w, h, n, prec, pt)
        d = lj.encode(rng, w, h, n, prec, v, 1 + i % 7 if i % 3 else None, pt, rng.choice([0, 0, 0, 1, 2, 3]))
        out.append(case(rng, f"img-{i}", d, w, h, n, prec, [x << pt for r in v for x in r]))
    for i in range(20 if q else 200):     # many restart intervals
        w = rng.randrange(1, 4); h = rng.randrange(10, 24); n = rng.choice([1, 2])
        out.append(case(rng, f"rst-{i}", lj.stream(rng, w, h, n, 12, rrows=rng.choice([1, 2])), w, h, n, 12))
    for i in range(200 if q else 4000):
        n = rng.choice([1, 2, 2, 3, 4]); w = rng.randrange(1, 10); h = rng.randrange(1, 6)
        d = lj.damage(rng, lj.stream(rng, w, h, n))
        out.append(case(rng, f"bad-{i}", d, w, h, n, 12))
    return out
ASSUME = ["images of up to about 400 samples; the frame has one interleaved scan", "damaged streams that the format does not define may give an error or any image of the declared size"]
