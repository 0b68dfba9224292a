"""Canon CR3 files."""
from .cr3gen import *
from .c02 import fill
from .c24 import calib
import json, os
CAMS = json.load(open(os.path.join(os.path.dirname(__file__), "..", "spec", "data", "cameras.json")))
def block(rng, f):
    t = Tiff(rng.random() < .5, rng, gaps=True); d = t.dir(); f(t, d)
    if rng.random() < .2: d.next = t.dir()
    return t.bytes()
def main(rng):
    def f(t, d):
        fill(rng, t, d, rng.randrange(4))
        if rng.random() < .8: d.e(271, 2, rng.choice(["Canon", "x"]))
        if rng.random() < .8: d.e(272, 2, rng.choice(CAMS["models"]["CANON"])["name"])
        if rng.random() < .7: d.e(274, rng.choice([3, 3, 3, 4]), [rng.choice([1, 3, 6, 8, 0, 9])])
        calib(rng, d, .2)
    return block(rng, f)
def exif(rng): return block(rng, lambda t, d: fill(rng, t, d, rng.randrange(6)))
def note(rng, id=None):
    def f(t, d):
        fill(rng, t, d, rng.randrange(3))
        for x in list(d.es):
            if x[0] in (16, 154, 224): d.es.remove(x)
        if rng.random() < .8:
            m = rng.choice(CAMS["modelids"]["CANON"])
            d.e(16, rng.choice([4, 4, 4, 4, 3]), [(m["hi"] << 16 | m["lo"]) if rng.random() < .85 else rng.randrange(1 << 32)])
        if rng.random() < .8:
            n = rng.choice([17, 17, 17, 9, 3, 0])
            v = [2 * n] + [rng.choice([rng.randrange(6000), rng.randrange(30), 65535, 0]) for _ in range(16)]
            if rng.random() < .7: v[5], v[6] = rng.randrange(200), rng.randrange(100); v[7], v[8] = v[5] + rng.randrange(1, 6000), v[6] + rng.randrange(1, 4000)
            d.e(224, 3, v[:n])
        if rng.random() < .8:
            n = rng.choice([5, 5, 5, 6, 4, 0])
            d.e(154, rng.choice([4, 4, 4, 3]), ([rng.choice([0, 1, 2, 7, 8, 12, 13, 258, 5]), rng.randrange(1, 6000), rng.randrange(1, 4000), rng.randrange(60), rng.randrange(60), 1])[:n])
    return block(rng, f)
def build(rng):
    r = rng.random
    c = Cr3(rng, wide=rng.choice([0, .15, .5]), junk=rng.choice([0, .2, .4]))
    if r() < .95:
        for i, g in enumerate((main, exif, note, exif)):
            if r() < .93: c.blocks[i + 1] = g(rng)
            if r() < .04: c.blocks[i + 1] = rng.choice([b"", b"II*", b"junkjunkjunk", b"II*\0", b"MM\0*\0\0\0\x08", bytes(8)])
    else: c.version = None
    if r() < .8:
        w, h = rng.choice([(160, 120), (120, 160), (0, 0), (1, 0), (320, 214)]); c.thumb = (w, h, jpeg(rng, 16, 16))
    dims = lambda: (rng.choice([6000, 1620, 640, 200, rng.randrange(1, 9000)]), rng.choice([4000, 1080, 480, rng.randrange(1, 9000)]))
    n = rng.choice([4, 4, 4, 4, 3, 3, 2, 1, 0, 5])
    for i in range(n):
        w, h = dims(); d = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 20, 90])))
        t = Trk(w=w, h=h, jpeg=i != 2 and r() < (.9 if i == 0 else .3), off=d, id=rng.choice([i + 1, i + 1, 0, 77]))
        if i == 2 and r() < .06: t.jpeg = True
        if i > 2 and r() < .8: t.kind, t.entry = "meta", "CTMD"
        if r() < .04: t.kind = rng.choice(["meta", "xxxx", "soun"]); t.stsd = False if t.kind == "soun" else t.stsd
        if r() < .04: t.entry = rng.choice(["hvc9", "JPEG", "craw"])
        if r() < .03: t.stsd = rng.choice([False, "empty"])
        if r() < .03: t.stsz = rng.choice([False, "empty"])
        if r() < .03: t.stco = rng.choice([False, "empty"])
        if r() < .03: t.tkhd = False
        if r() < .06: t.claim = rng.choice([0, 1, len(d) + 1, len(d) + 100, 0x7fffffff, 0x80000000, 0xffffffff, len(d) // 2])
        elif r() < .04: t.off, t.len = rng.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 63), (1 << 64) - 1, 100000]), rng.choice([0, 5, 100, 0xffffffff])
        c.tracks.append(t)
    if r() < .8:
        w, h = rng.choice([(1620, 1080), (1080, 1620), (0, 1), (5, 0), (1, 1)] + [(1620, 1080)] * 6); c.preview = (w, h, jpeg(rng, 16, 8) if r() < .95 else b"")
        if r() < .08: c.table = rng.choice([[], [(1, 1)], [(0, 1), (60, 1)], [(1, 0), (60, 1)], [(1, 1), (60, 0)], [(1, 1), (rng.choice([1 << 31, 1 << 32, (1 << 63) - 1, (1 << 64) - 1, (1 << 64) - 46, (1 << 64) - 47, 5000]), 7)], [(1, 1), (1, 1), (1, 1)]])
    elif r() < .3: c.table = None
    if r() < .15: c.split = True
    if r() < .12: c.size0 = True
    b = c.bytes(); k = r()
    if k < .03: b = b[:rng.randrange(12, len(b))]
    elif k < .05:
        p = b.find(rng.choice([b"stsz", b"stco", b"co64", b"CRAW", b"THMB", b"CTBO", b"tkhd", b"stsd", b"trak", b"CMT3", b"moov", b"hdlr"]))
        if p > 11: b = b[:p - 4] + u32(rng.choice([0, 1, 2, 7, 8, 9, 20, 1000, 0xffffffff])) + b[p:]
    return b
def cases(seed, tier):
    rng = random.Random(seed * 77 + 23); out = []
    for i in range(1500 if tier == "quick" else 15000):
        b = build(rng)
        ops = [["ids"], ["get", "Exif.Image.Make"], ["get", "Exif.Image.Model"], ["orient"], ["ifd", "main"], ["ifd", "exif"], ["ifd", "mnote"],
               ["sizes"], ["thumb", rng.choice([0, 1, 160, 161, 320, 640])], ["thumb", rng.choice([1620, 1080, 5000, 9999])], ["raw", False], ["raw", True]]
        rng.shuffle(ops)
        c = {"id": f"cr3-{i}", "file": b.hex(), "hint": "CR3", "mode": rng.choice(["mem", "io", "slow"] if False else ["mem", "io"]), "kinds": ["Main"], "ops": ops}
        out.append(c)
    return out
ASSUME = ["structures that aren't well formed are only checked for panics", "the handler of a track comes before its samples, ftyp comes first",
          "the box of the preview has 32 bit sizes", "a track without sizes or offsets isn't specified",
          "the metadata iterator is empty for CR3 (a limitation)"]
