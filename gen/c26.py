from .rafgen import *
from . import fujigen
BAYER = [[0, 1, 1, 2], [2, 1, 1, 0]]
def cases(seed, tier):
    rng = random.Random(seed * 77 + 26)
    out = []
    for i in range(150 if tier == "quick" else 1500):
        xt = rng.random() < .5
        w = rng.choice([768] * 6 + [792, 1536, 1560]); h = rng.choice([6, 6, 12, 12, 18]) if w == 768 else 6
        bits = rng.choice([14, 14, 14, 12, 16]); lossless = rng.random() < .5
        p = fujigen.fuji(rng, w, h, bits, xt, lossless)
        r = rng.random()
        if r < .12: # a fault in the header or the sizes
            b = bytearray(p); k = rng.randrange(24); b[k] = rng.choice([0, 1, 255, b[k] ^ 1, b[k] + 1 & 255, b[k] ^ 128, 12, 14, 16, 4]); p = bytes(b)
        elif r < .16: p = p[:rng.choice([rng.randrange(len(p)), len(p) - 1, len(p) - 4])] or b"\0"
        elif r < .20: # a fault in the codes
            b = bytearray(p); k = rng.randrange(32, len(b)); b[k] ^= 1 << rng.randrange(8); p = bytes(b)
        elif r < .22: k = rng.randrange(32, len(p)); p = p[:k] + bytes(len(p) - k)
        elif r < .24: p += bytes(rng.randrange(1, 20))
        if not xt: pat = False
        else: pat = roll(XTRANS, rng.randrange(6), rng.randrange(6)) if rng.random() < .97 else [1] * 36
        f = raf(rng, w=w, h=h, payload=p, bps=bits if rng.random() < .8 else 14, pattern=pat, tiff=rng.random() < .8, odd=.1)
        ops = [["raw", False]] + ([["raw", True]] if rng.random() < .3 else [])
        out.append({"id": f"fuji-{i}", "file": f.hex(), "hint": "RAF", "mode": rng.choice(["mem", "io"]), "ops": ops})
    return out
ASSUME = ["images of up to 1560x6 or 768x18 samples"]
