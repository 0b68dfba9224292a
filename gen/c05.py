from .rawtiff import *
from . import c15
TLA_GEN = ["GenC05"]
def one(rng, hint):
    t = start(rng, hint); main = t.dir()
    d, _ = rawdir(rng, t, hint, main)
    comps = {"PEF": [1, 1, None, 32773, 32773], "ORF": [1, 1, None, 1, 65535]}.get(hint)
    image(rng, t, d, hint, comps)
    if hint == "ARW" and rng.random() < .5: main.e(272, 2, rng.choice(["DSC-R1", "DSC-R1x", "DSLR-A700"]))
    if rng.random() < .5:
        x = t.dir(); cfa(rng, x, .8); main.e(34665, 4, [x])
    if rng.random() < .1: t.tail = 5
    b = close(t)
    if rng.random() < .05: b = b[:rng.randrange(8, len(b))]
    return b
REPEAT = 5
def cases(seed, tier):
    rng = random.Random(seed * 77 + 5)
    out = []; q = tier == "quick"
    for i in range(700 if q else 10000):
        hint = rng.choice(["DNG", "DNG", "NEF", "PEF", "ERF", "ORF", "ARW"])
        b = one(rng, hint)
        out.append({"id": f"{hint}-{i}", "file": b.hex(), "hint": hint, "mode": rng.choice(["mem", "io"]), "kinds": K[hint], "ops": [["raw", True]]})
    for i in range(90 if q else 1300): out.append(canon(rng, i))
    return out
def canon(rng, i): return {"id": f"CR2-{i}", "file": c15.cr2(rng, True)[0].hex(), "hint": "CR2", "mode": rng.choice(["mem", "io"]), "kinds": c15.K["CR2"], "ops": [["raw", True]]}
ASSUME = ["compressed payloads are asked for without decompression here; their decoding is C07-C13",
          "the words of a 12 bit image are in the order of the container"]
