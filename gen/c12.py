from .rawtiff import *
from . import orfgen
def orf(rng, w, h, data):
    t = start(rng, "ORF"); d = t.dir()
    if rng.random() < .3: d.e(254, 4, [rng.choice([0, 1])])
    for tag, v in ((256, w), (257, h), (258, rng.choice([16, 16, 12, 14])), (259, 1)): d.e(tag, rng.choice([3, 4]) if tag < 258 else 3, [v])
    k = rng.choice([1, 1, 1, 2])
    cut = sorted([0, len(data)] + [rng.randrange(len(data) + 1) for _ in range(k - 1)])
    parts = [data[a:b] for a, b in zip(cut, cut[1:])]
    if k == 1: d.e(273, 4, [t.blob(data)])
    else: d.e(273, 4, [t.blob(p) for p in parts])
    d.e(279, 4, [len(p) for p in parts]); cfa(rng, d)
    return close(t)
REPEAT = 2
def cases(seed, tier):
    rng = random.Random(seed * 77 + 12)
    out = []
    q = tier == "quick"
    def add(id, w, h, data, skips=(False,)):
        out.append({"id": id, "file": orf(rng, w, h, data).hex(), "hint": "ORF", "mode": rng.choice(["mem", "io"]), "kinds": K["ORF"], "ops": [["raw", s] for s in skips]})
    for i in range(150 if q else 2500):
        w = rng.choice([2, 4, 6, 10, 16, 24, 7, 1]) ; h = rng.randrange(1, 9)
        data = orfgen.payload(rng, w, h, 0 if w * h < 12 else None)
        r = rng.random()
        if r < .1: data = data[:rng.randrange(len(data))]
        elif r < .15: data = bytes(rng.randrange(256) for _ in range(rng.choice([8, 40, w * h * 2])))
        if rng.random() < .5: out.append({"id": f"dec-{i}", "direct": [{"fn": "olympus", "data": list(data), "w": w, "h": h}]})
        else: add(f"orf-{i}", w, h, data, (False, True))
    for i in range(60 if q else 800):
        w = rng.choice([10, 20, 30]); h = rng.randrange(1, 6)
        add(f"pad-{i}", w, h, bytes(rng.randrange(256) for _ in range(w // 10 * 16 * h)), (False, True))
    for i in range(6 if q else 60):
        w = rng.choice([40, 64, 100, 6]); h = 3600 * 2 // 3 // w + rng.randrange(1, 4) if i % 3 else rng.randrange(1, 6)
        add(f"inter-{i}", w, h, bytes(rng.randrange(256) for _ in range(w * h * 3 // 2)))
    for i in range(2 if q else 10):
        w = rng.choice([3700, 3704]); add(f"be-{i}", w, 1, bytes(rng.randrange(256) for _ in range(w * 3 // 2)))
    return out
ASSUME = ["images of up to about 2600 pixels (24 pixels wide when compressed)", "samples that are missing from interlaced data are 0"]
