import random
from .tiffgen import *
from . import dump
TLA_GEN = ["GenC02"]
NAMES = [256, 257, 258, 259, 270, 271, 272, 274, 305, 306, 315, 33434, 37385, 41486, 50706, 1, 2, 7, 65000, 65535, 0]
KINDS = {"DNG": ["Main"], "NEF": ["Main"], "PEF": ["Main", "Other", "Other"], "ERF": ["Main"], "ARW": ["Main"],
         "ORF": ["Main"], "RW2": ["Main", "Other", "Other", "Other"]}

def fill(rng, t, d, n, ascii_only=False):
    used = set()
    for _ in range(n):
        tag = rng.choice(NAMES) if rng.random() < .7 else rng.randrange(65536)
        if tag in (37500, 34665, 34853, 330, 50740, 254, 46, 288): continue
        used.add(tag)
        typ = rng.choice(TYPES)
        r = rng.random()
        if r < .06: d.raw(tag, rng.choice([0, 13, 14, 200, 10000, 40000]), rng.randrange(5), bytes(rng.randrange(256) for _ in range(4)))
        elif r < .12: d.at(tag, typ, rng.choice([20, 1000, 0x7fffffff, 0xffffffff]), rng.choice([0x7fffff00, 0xfffffff0, 60000]))
        else: d.e(tag, typ, rnd_vals(rng, typ, rng.choice([0, 1, 1, 1, 2, 3, 4, 5, 8, 25])))
        if rng.random() < .05: d.e(tag, 3, [rng.randrange(65536)])   # duplicate, the last one counts
    if rng.random() < .5: rng.shuffle(d.es)
    else: d.es.sort(key=lambda x: x[0])

def tiff(rng, hint):
    le = hint == "RW2" or rng.random() < .5
    head = {"RW2": b"IIU\0", "ORF": rng.choice([b"IIRO", b"IIRS"] if le else [b"MMOR", b"MMSR"])}.get(hint)
    t = Tiff(le, rng, gaps=True, head=head)
    nd = rng.choice([1, 1, 2, 3, 5])
    dirs = [t.dir() for _ in range(nd)]
    for i, d in enumerate(dirs):
        fill(rng, t, d, rng.randrange(0, 7))
        if i + 1 < nd: d.next = dirs[i + 1]
        subs = []
        def sub():
            s = t.dir(); fill(rng, t, s, rng.randrange(0, 5))
            if rng.random() < .1: s.next = dirs[0]
            return s
        if rng.random() < .6: d.e(34665, 4, [sub()])
        elif rng.random() < .2: d.e(34665, rng.choice([3, 4]), [rng.choice([0, 60000, 0xffffffff])])
        if rng.random() < .4: d.e(34853, 4, [sub()])
        if rng.random() < .5:
            l = [sub() for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < .3: l.insert(rng.randrange(len(l) + 1), rng.choice([0, 65000, 0xfffffff0]))
            d.e(330, 4, l)
    r = rng.random()
    if r < .1: dirs[-1].next = rng.choice([70000, 0xffffffff])
    elif r < .2: dirs[-1].next = rng.choice(dirs)
    t.tail = rng.choice([0, 0, 5])
    return t

REPEAT = 5
def cases(seed, tier):
    rng = random.Random(seed * 77 + 2)
    out = []
    for i in range(400 if tier == "quick" else 6000):
        hint = rng.choice(["DNG", "DNG", "NEF", "PEF", "ERF", "ORF", "RW2"])
        b = tiff(rng, hint).bytes()
        if rng.random() < .1: b = b[:rng.randrange(8, len(b))]
        out.append({"id": f"rnd-{i}", "file": b.hex(), "hint": hint, "mode": rng.choice(["mem", "io"]), "kinds": KINDS[hint],
                    "ops": [["ifd", "main"], ["ifd", "exif"], ["dump", True]]})
    return out

def shape(case, obs):
    from check import merge
    m = merge(case, obs)
    for o in m["obs"]:
        if "text" in o: o["items"] = dump.parse(o.pop("text"))
    return m
ASSUME = ["text that is not ASCII: only bytes that are each invalid UTF-8 on their own are generated",
          "rationals with a term above 2^31-1 are compared as fractions only, not as integer quotients",
          "the floating point conversions are compared to 4 decimals for terms up to 20000",
          "files are at most a few KB; offsets above 2^31-1 only occur as invalid ones"]
