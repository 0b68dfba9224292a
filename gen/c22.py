from .mrwgen import *
REPEAT = 5
def cases(seed, tier):
    rng = random.Random(seed * 77 + 22)
    out = []
    for i in range(700 if tier == "quick" else 9000):
        b = mrw(rng)
        if rng.random() < .05: b = b[:rng.randrange(8, len(b))]
        ops = [["meta"], ["get", "Exif.Image.Make"], ["get", "Exif.Image.Model"], ["orient"], ["ifd", "main"], ["ifd", "exif"], ["ifd", "mnote"],
               ["sizes"], ["thumb", rng.choice([0, 1, 640, 641])], ["raw", False], ["raw", True]]
        rng.shuffle(ops)
        out.append({"id": f"mrw-{i}", "file": b.hex(), "hint": "MRW", "mode": rng.choice(["mem", "io"]), "kinds": ["Main"], "ops": ops})
    return out
ASSUME = ["white balance fractions have terms up to 20000", "the reported bit depth is the number of valid bits of the PRD block"]
