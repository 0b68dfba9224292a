from .rafgen import *
REPEAT = 3
def cases(seed, tier):
    rng = random.Random(seed * 77 + 21)
    out = []
    for i in range(900 if tier == "quick" else 12000):
        p = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 40))) if rng.random() < .08 else None
        b = raf(rng, odd=rng.choice([.25, .25, 1]), payload=p, **({"w": 20, "h": 20} if p else {}))
        ops = [["meta"], ["get", "Exif.Image.Make"], ["get", "Exif.Image.Model"], ["orient"], ["ifd", "main"], ["ifd", "exif"], ["ifd", "mnote"],
               ["sizes"], ["thumb", rng.choice([0, 1, 160, 640, 641, 5000])], ["thumb", rng.choice([3, 120, 1920])], ["raw", False], ["raw", True]]
        rng.shuffle(ops)
        out.append({"id": f"raf-{i}", "file": b.hex(), "hint": "RAF", "mode": rng.choice(["mem", "io"]), "kinds": ["Main"], "ops": ops})
    return out
ASSUME = ["images of less than 2^31 bits, payloads of less than 2^27 or more than 2^31 bytes", "a crop to an aspect ratio that is exact may be one pixel short (floating point)",
          "the second image of the Super CCD cameras isn't read"]
