"""Nested windows: hosts of embedded files, and histories of reads on them."""
import random, struct
from .tiffgen import *
from .c02 import fill, KINDS
from .mnote import note, KINDS as NOTES
from .jpeggen import jpeg, broken
from . import c04, c16, c20, c23, dump, mrwgen, rafgen
from .mnote import note as mknote
TLA_MODEL = [("View", "CONSTANT Relaxed = FALSE\nINVARIANT Isolated\nINVARIANT Inside"), ("View", "CONSTANT Relaxed = TRUE\nINVARIANT Isolated", "Isolated")]
TLA_GEN = ["GenC25"]
GEN_CFG = "INVARIANT Emit"
K = dict(KINDS, JPEG=[], RAF=["Main"], MRW=["Main"], CR3=["Main"], CRW=["Main"])

def family(rng, t, d):
    """GPS and sub directories"""
    r = rng.random
    if r() < .3:
        g = t.dir(); fill(rng, t, g, rng.randrange(3)); d.e(34853, 4, [g])
    if r() < .3:
        xs = [t.dir() for _ in range(rng.randint(1, 2))]
        for x in xs: fill(rng, t, x, rng.randrange(3))
        d.e(330, rng.choice([4, 4, 13]), xs)
    d.es.sort(key=lambda e: e[0])
def plain(rng, kind="none"):
    """a TIFF file of its own"""
    t, main = c16.tiff(rng, "DNG", kind, jpg=True); family(rng, t, main)
    b = t.bytes()
    return b[:rng.randrange(len(b))] if rng.random() < .05 else b
OLY = [0x2010, 0x2020, 0x2030, 0x2031, 0x2040, 0x2050, 0x3000]
def orf(rng):
    """a maker note with directories of its own"""
    le = rng.random() < .5
    t = Tiff(le, rng, gaps=True, head=rng.choice([b"IIRO", b"IIRS"] if le else [b"MMOR", b"MMSR"]))
    main = t.dir(); fill(rng, t, main, 2); ex = t.dir(); main.e(34665, 4, [ex])
    k = rng.choice(["olympus2", "olympus2", "om", "olympus"]); g, d = mknote(t, k, le=le); fill(rng, t, d, rng.randrange(3))
    for q in OLY:
        if rng.random() < .6:
            x = t.dir(base=d.base, le=le); fill(rng, t, x, rng.randrange(3)); d.e(q, rng.choice([13, 4]), [Ref(x, 0, d.base.c if hasattr(d.base, "c") else d.base or None)])
    d.es.sort(key=lambda e: e[0])
    ex.at(37500, 7, g, g); family(rng, t, main)
    return t.bytes()
def inner(rng, hint):
    """Exif data: directories, Exif, a maker note with an origin of its own, a thumbnail"""
    t, main = c16.tiff(rng, hint, rng.choice(list(NOTES) + ["odd", "mlt0"]), jpg=True); family(rng, t, main)
    if main.next == 0 and rng.random() < .85:
        b = t.dir(); main.next = b; th = jpeg(rng, 160, 120)
        if rng.random() < .95: b.e(513, 4, [t.blob(th) if rng.random() < .93 else rng.choice([1 << 20, 0xffffffff])])
        if rng.random() < .95: b.at(514, 4, 1, rng.choice([len(th)] * 4 + [len(th) - 1, len(th) + 1, 100000]))
    return t.bytes()
def stream(rng, hint):
    j = jpeg(rng, rng.choice([640, 1920, 7]), rng.choice([480, 1080, 9]), inner(rng, hint) if rng.random() < .96 else None)
    return broken(rng, j) if rng.random() < .03 else j
def far(rng, size):
    return rng.choice([size, size - 1, size + 1, size + 2, 2 * size, 1 << 31, (1 << 32) - 1, (1 << 32) - 12, 0])
def host(rng, hint):
    bad = rng.random() < .06
    if hint == "JPEG":
        b = stream(rng, hint)
    elif hint == "RAF":
        b = bytearray(rafgen.raf(rng, odd=.1)); j = stream(rng, hint)
        b += b"\xa5" * rng.choice([0, 1, 7, 300]); p = len(b); b += j
        if rng.random() < .3: b += b"\x5a" * 9
        b[0x54:0x58] = struct.pack(">I", p if not bad else far(rng, len(b)) & 0xffffffff); b[0x58:0x5c] = struct.pack(">I", len(j))
    elif hint == "RW2":
        t = Tiff(True, rng, gaps=True, head=b"IIU\0"); m = t.dir(); fill(rng, t, m, 3); j = stream(rng, hint)
        if bad: m.at(46, 7, len(j), far(rng, 2000) & 0xffffffff)
        elif rng.random() < .96: m.e(46, 7, j)
        if rng.random() < .3: c16.exif(rng, t, m, hint, rng.choice(["panasonic", "none"]))
        if rng.random() < .6:
            c = plain(rng)
            if bad: m.at(288, 7, len(c), far(rng, 2000) & 0xffffffff)
            else: m.e(288, rng.choice([7] * 9 + [1]), c)
        family(rng, t, m); b = t.bytes()
    elif hint == "MRW": b = mrwgen.mrw(rng)
    elif hint == "CR3": b = c23.build(rng)
    elif hint == "CRW": b = c20.mk(rng)
    elif hint == "ORF" and rng.random() < .5: b = orf(rng)
    else: b = c04.one(rng, hint) if rng.random() < .5 else c16.one(rng, hint, rng.choice(list(NOTES)))
    if rng.random() < .03: b = b[:rng.randrange(max(8, len(b) // 2), len(b))]
    return bytes(b)
QUERY = {"main": ["ifd", "main"], "exif": ["ifd", "exif"], "mnote": ["ifd", "mnote"], "small": ["thumb", 160], "large": ["thumb", 5000],
         "raw": ["raw", False], "meta": ["meta"], "dump": ["dump", True]}
# what the library can't answer from a window in a damaged file isn't asked in C25 (see C18)
def op(q, hint): return QUERY[q]
def expand(c, seed):
    h = c["host"]; rng = random.Random("%d/%s/%s" % (seed, h, "-".join(c["hist"])))
    return {"id": c["id"], "file": host(rng, h).hex(), "hint": h, "mode": rng.choice(MODES), "kinds": K[h], "ops": [op(q, h) for q in c["hist"]]}
MODES = ["mem", "io", "io@7", "io@100000"]
def cases(seed, tier):
    rng = random.Random(seed * 77 + 25); out = []
    hosts = ["JPEG", "RAF", "RAF", "RW2", "RW2", "MRW", "CR3", "CRW", "NEF", "ORF", "PEF", "DNG", "ERF"]
    for i in range(400 if tier == "quick" else 8000):
        h = rng.choice(hosts)
        ops = [op(rng.choice(list(QUERY)), h) if rng.random() < .85 else rng.choice([["sizes"], ["thumb", rng.choice([1, 161, 640, 1920])], ["raw", True], ["orient"]]) for _ in range(rng.randint(6, 16))]
        ops = [o for o in ops if o[0] != "orient"]
        out.append({"id": f"{h}-{i}", "file": host(rng, h).hex(), "hint": h, "mode": rng.choice(MODES), "kinds": K[h], "ops": ops})
    return out
ASSUME = ["a window starts at its offset and ends with the file: the library doesn't keep a reader from reading past the end of an embedded block",
          "what the windows of each format are is specified in C02, C04, C16 and C20-C23",
          "queries on handles of one file at a time: the handles of two files share nothing (C17)"]

def shape(case, obs):
    from check import merge
    m = merge(case, obs)
    for o in m["obs"]:
        if "text" in o: o["items"] = (dump.parse_ciff if case["hint"] == "CRW" else dump.parse)(o.pop("text"))
    return m
