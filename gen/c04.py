import random
from .tiffgen import *
from .jpeggen import jpeg, broken
from .mnote import note
from .c02 import KINDS
TLA_GEN = ["GenC04"]
K = dict(KINDS, CR2=["Main", "Other", "Other", "Raw"], JPEG=[])

def dims(rng):
    return rng.choice([1, 2, 3, 5, 8, 160, 160, 200, 640, rng.randrange(1, 3000)]), rng.choice([1, 2, 4, 7, 120, 120, 424, rng.randrange(1, 3000)])

def preview(rng, t, d):
    """an attempt at a preview in directory d"""
    r = rng.random()
    if r < .75: d.e(254, 4, [1])
    elif r < .82: d.e(254, rng.choice([3, 4]), [rng.choice([0, 1, 2, 4])])
    x, y = dims(rng)
    kind = rng.choice(["strip8", "stripjpeg", "jpeg", "jpeg", "nodim", "none"])
    if kind == "none": return
    T = rng.choice([3, 4])
    if kind == "strip8":
        if rng.random() < .6: x, y = min(x, 9), min(y, 6)
        d.e(256, T, [x]); d.e(257, T, [y])
        if rng.random() < .8: d.e(262, 3, [rng.choice([2, 2, 2, 6, 1, 32803])])
        if rng.random() < .8: d.e(259, 3, [rng.choice([1, 1, 1, 0, 6, 7, 8])])
        if rng.random() < .8: d.e(258, 3, rng.choice([[8, 8, 8], [8], [8, 8, 8], [16, 16, 16], [8, 8, 16], [16], [8, 8, 8, 9]]))
        data = bytes(rng.randrange(256) for _ in range(min(x * y * 3, rng.choice([300, 40]))))
        n = rng.choice([len(data), len(data), len(data) + 1, x * y * 3])
        b = t.blob(data)
        if rng.random() < .9: d.at(279, 4, 1, n)
        d.e(273, 4, [b])
    elif kind == "stripjpeg":
        data = jpeg(rng, x, y); b = t.blob(data)
        if rng.random() < .7: d.e(256, T, [x]); d.e(257, T, [y])
        elif rng.random() < .3: d.e(256, T, [x])
        d.e(259, 3, [rng.choice([6, 7])]); d.e(273, 4, [b]); d.at(279, 4, 1, rng.choice([len(data), len(data), x * y * 3, x * y * 3 - 1]))
        if rng.random() < .2: d.e(513, 4, [b + 1]); d.at(514, 4, 1, 5)
    else:
        data = jpeg(rng, x, y)
        if rng.random() < .1: data = broken(rng, data)
        if rng.random() < .05: data = b"nojpeg" + data
        b = t.blob(data)
        if kind == "jpeg": d.e(256, T, [x]); d.e(257, T, [y])
        elif rng.random() < .2: d.e(256, T, [rng.choice([0, x])])
        d.e(513, 4, [b if rng.random() < .93 else rng.choice([70000, 0xfffffff0])])
        if rng.random() < .93: d.at(514, 4, 1, rng.choice([len(data), len(data), len(data) // 2, 0, 90000, 0xffffffff]))
    d.es.sort(key=lambda e: e[0])

def exif(rng, thumb):
    """Exif data of a JPEG with a thumbnail in the second directory"""
    t = Tiff(rng.random() < .5, rng)
    a = t.dir(); a.e(271, 2, "Make")
    if rng.random() < .9:
        b = t.dir(); a.next = b
        if thumb is not None:
            if rng.random() < .95: b.e(513, 4, [t.blob(thumb)])
            if rng.random() < .95: b.at(514, 4, 1, rng.choice([len(thumb), len(thumb), len(thumb) - 1, 100000]))
    return t.bytes()

def vendor(rng, hint, t, main):
    x, y = dims(rng)
    data = jpeg(rng, x, y)
    if rng.random() < .07: data = broken(rng, data)
    ex = t.dir(); main.e(34665, 4, [ex])
    if hint == "NEF":
        k = rng.choice(["nikon3", "nikon3", "nikon2", "none"])
        g, d = note(t, k, le=not t.le if k == "nikon3" and rng.random() < .2 else None)
        p = g.dir(base=d.base); b = g.blob(data)
        rel = d.base
        if rng.random() < .95: p.e(513, 4, [Ref(b, -rel.d, rel.c) if isinstance(rel, Ref) else b])
        if rng.random() < .95: p.at(514, 4, 1, len(data))
        d.e(17, rng.choice([4, 4, 13]), [Ref(p, -rel.d, rel.c) if isinstance(rel, Ref) else p])
    elif hint == "ORF":
        g, d = note(t, rng.choice(["olympus2", "om", "olympus"]))
        rel = d.base
        R = lambda c: Ref(c, -rel.d, rel.c) if isinstance(rel, Ref) else c
        x2, y2 = dims(rng)
        if rng.random() < .8:
            th = jpeg(rng, *rng.choice([(160, 120), (x2, y2), (x, y)]))
            d.e(256, 7, th)
        cs = g.dir(base=rel); b = g.blob(data)
        if rng.random() < .9: cs.e(256, 4, [rng.choice([1, 1, 1, 0, 5])])
        cs.e(257, 4, [R(b)]); cs.at(258, 4, 1, rng.choice([len(data), len(data), 0]))
        if rng.random() < .9:
            if rng.random() < .3: d.at(0x2020, 7, cs, cs)
            else: d.e(0x2020, rng.choice([13, 4]), [R(cs)])
    elif hint == "PEF":
        g, d = note(t, rng.choice(["aoc", "aoc", "pentax"]))
        rel = d.base; b = g.blob(data)
        d.at(3, rng.choice([4, 4]), 1, len(data)); d.e(4, 4, [Ref(b, -rel.d, rel.c) if isinstance(rel, Ref) else b])
    elif hint == "DNG":
        g, d = note(t, rng.choice(["leica6", "leica6", "leica9", "aoc", "leicax1"]))
        d.e(0x300, rng.choice([7, 7, 7, 1]), data)
    elif hint == "ERF":
        g, d = note(t, "epson")
        d.e(0x280, 7, rng.choice([b"\xee" + data[1:], b"\xee" + data[1:], b"", b"\xee\xd8\xff"]))
    else: return
    d.es.sort(key=lambda e: e[0])
    # the note is an UNDEFINED blob
    ex.at(37500, 7, g, g)

def one(rng, hint):
    if hint == "JPEG":
        th = jpeg(rng, 160, 120) if rng.random() < .9 else None
        x, y = dims(rng)
        b = jpeg(rng, x, y, exif=exif(rng, th) if rng.random() < .9 else None)
        return b
    le = hint == "RW2" or rng.random() < .5
    head = {"RW2": b"IIU\0", "ORF": rng.choice([b"IIRO", b"IIRS"] if le else [b"MMOR", b"MMSR"])}.get(hint)
    t = Tiff(le, rng, gaps=True, head=head)
    ds = [t.dir() for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5]))]
    for i, d in enumerate(ds):
        if i + 1 < len(ds): d.next = ds[i + 1]
        if hint == "RW2" and i == 0: continue
        if i == 0 and rng.random() < .3: d.e(254, 4, [0])
        else: preview(rng, t, d)
        if rng.random() < .4:
            subs = [t.dir() for _ in range(rng.choice([1, 2, 3]))]
            for s in subs: preview(rng, t, s)
            while rng.random() < .3: subs.insert(rng.randrange(len(subs) + 1), rng.choice([0, 0, 1 << 24]))
            d.e(330, 4, subs)
    if hint == "ARW" and rng.random() < .4: ds[0].e(272, 2, rng.choice(["DSLR-A100", "DSLR-A100 ", "DSLR-A700"]))
    if hint == "RW2":
        x, y = dims(rng)
        th = jpeg(rng, 160, 120) if rng.random() < .9 else None
        data = jpeg(rng, x, y, exif=exif(rng, th) if rng.random() < .8 else None)
        if rng.random() < .1: data = broken(rng, data)
        ds[0].e(0x2e, rng.choice([7, 7, 7, 7, 1]), data)
    elif rng.random() < .75: vendor(rng, hint, t, ds[0])
    for d in ds: d.es.sort(key=lambda e: e[0])
    b = t.bytes()
    if rng.random() < .15: b = b[:rng.randrange(max(8, len(b) - 60), len(b) + 1)]
    return b

REPEAT = 4
def cases(seed, tier):
    rng = random.Random(seed * 77 + 4)
    out = []
    for i in range(500 if tier == "quick" else 8000):
        hint = rng.choice(["DNG", "NEF", "PEF", "ERF", "ORF", "RW2", "ARW", "CR2", "JPEG"])
        b = one(rng, hint)
        ops = [["sizes"]] + [["thumb", rng.choice([0, 1, 2, 3, 4, 7, 119, 120, 160, 161, 200, 424, 640, 641, 1000, 3000, 0xffffffff])] for _ in range(5)]
        rng.shuffle(ops)
        out.append({"id": f"{hint}-{i}", "file": b.hex(), "hint": hint, "mode": rng.choice(["mem", "io"]), "kinds": K[hint], "ops": ops})
    return out
ASSUME = ["previews of RAF, MRW, CRW and CR3 files are specified in C20-C23",
          "when two previews have the same dimension either one is accepted",
          "JPEG streams are well-formed up to their frame header, or cut before it, or no JPEG at all"]
