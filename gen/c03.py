import json, os, random
from .tiffgen import *
from .c02 import tiff, KINDS
TLA_GEN = ["GenC03"]
TAGS = json.load(open(os.path.join(os.path.dirname(__file__), "../spec/data/tags.json")))
REPEAT = 5
def cases(seed, tier):
    rng = random.Random(seed * 77 + 3)
    out = []
    # every name of the table, in one go each
    for j, (hint, table) in enumerate([("DNG", "EXIF"), ("RW2", "RAW_PANASONIC")]):
        tags = sorted(int(t) for t in TAGS[table] if int(t) not in (330, 34665, 34853, 37500))
        for i in range(0, len(tags), 40):
            head = b"IIU\0" if hint == "RW2" else None
            t = Tiff(True, rng, head=head); d = t.dir()
            for x in tags[i:i+40]: d.e(x, 3, [x ^ 0x55])
            keys = ["Exif.Image." + TAGS[table][str(x)] for x in tags[i:i+40]]
            out.append({"id": f"name-{j}-{i}", "file": t.bytes().hex(), "hint": hint, "mode": "mem", "kinds": KINDS[hint],
                        "ops": [["meta"]] + [["get", k] for k in keys]})
    for i in range(300 if tier == "quick" else 5000):
        hint = rng.choice(["DNG", "DNG", "NEF", "PEF", "ERF", "ORF", "RW2"])
        t = tiff(rng, hint)
        if rng.random() < .4: t.first.e(274, rng.choice([3, 3, 4, 2, 8, 7]), [rng.randrange(9), rng.randrange(100)][:rng.choice([0, 1, 1, 2])])
        b = t.bytes()
        if rng.random() < .1: b = b[:rng.randrange(8, len(b))]
        names = list(TAGS["RAW_PANASONIC" if hint == "RW2" else "EXIF"].items())
        present = [str(e[0]) for e in t.first.es]
        keys = ["Exif.Image." + n for k, n in names if k in present][:6] + ["Exif.Image." + rng.choice(names)[1], "other.Make", "Exif.Image.", "x"]
        ops = [["meta"], ["orient"]] + [["get", k] for k in keys] + [["meta"]]
        rng.shuffle(ops)
        out.append({"id": f"rnd-{i}", "file": b.hex(), "hint": hint, "mode": rng.choice(["mem", "io"]), "kinds": KINDS[hint], "ops": ops})
    return out
ASSUME = ["formats that are not TIFF based (JPEG, MRW, RAF, CR3, CRW) have their metadata specified in C16 and C20-C23",
          "text that is not ASCII: only bytes that are each invalid UTF-8 on their own are generated",
          "the text forms of floating point values are not compared"]
