from .tiffgen import *
from .c02 import fill, KINDS
from .mnote import note, KINDS as NOTES
from .jpeggen import jpeg, broken
from .rafgen import raf
import json, os
TAGS = json.load(open(os.path.join(os.path.dirname(__file__), "../spec/data/tags.json")))
HINTS = ["DNG", "NEF", "PEF", "ERF", "ORF", "RW2", "ARW", "CR2", "RAF", "JPEG"]
K = dict(KINDS, CR2=["Main", "Other", "Other", "Raw"], JPEG=[], RAF=["Main"])
# signatures that are not in NOTES: known to be no directory, or close to a known one
ODD = [b"SEITZ PHOTOTECHNIK\0", b"LSI1\0", b"HDRP", b"STMN\0\0\0\0\0\0\0\0", b"STMN\0\0\0\x01\1\0\0\0", b"STMN100\0\0\0\0\0", b"SONY DSC \0\0\0", b"SONY CAM \0\0\0",
       b"Nikon\0\3\x10", b"Nikon\0\0\0", b"AOC\0II", b"AOC\1MM", b"LEICA\0\x03\0", b"LEICA\0\x02\1", b"LEICA\0\x08\1", b"LEICA\1\0\0", b"LEICA0\x03\1", b"LEICA1\x03\0",
       b"OLYMPUS\0MM\3\0", b"OLYMPUT\0II\3\0", b"OLYMQ\0\1\0", b"PENTAX \0MM", b"PENTAX\0\0II", b"Apple iOS\0\0\1II", b"Apple iOX\0\0\1MM", b"FUJIFILN\x0c\0\0\0", b"GENERALE\x0c\0\0\0",
       b"Ricoh\1\0\0", b"RICOH\0\0\0", b"SIGMB\0\0\0\1\0", b"FOVEON\0\0\1\0", b"YI     \1\0\0\0\0", b"OM SYSTEN\0\0\0II\4\0", b"EPSON\1\1\0", b"Panasonic\1\0\0"]

def content(rng, t, d, kind):
    table = rng.choice(["MNOTE_NIKON", "MNOTE_OLYMPUS", "MNOTE_PENTAX", "MNOTE_PANASONIC", "MNOTE_SONY", "MNOTE_CANON", "MNOTE_FUJIFILM", "MNOTE_APPLE", "MNOTE_LEICA5", "MNOTE_RICOH", "MNOTE_SIGMA"])
    for _ in range(rng.randrange(0, 5)):
        tag = int(rng.choice(list(TAGS[table]))) if rng.random() < .7 else rng.randrange(65536)
        ty = rng.choice(TYPES); d.e(tag, ty, rnd_vals(rng, ty, rng.choice([1, 1, 2, 3, 5, 9])))
    if rng.random() < .15: d.e(rng.randrange(300), rng.choice([0, 13, 14]), [1])
    if rng.random() < .1: d.at(rng.randrange(300), 3, rng.choice([40, 0x7fffffff, 0xffffffff]), rng.choice([0x7fffff00, 0xfffffff0, 5000]))
    d.es.sort(key=lambda e: e[0])
    if rng.random() < .1: d.next = rng.choice([0x7fffffff, 60])

def exif(rng, t, main, hint, kind):
    ex = t.dir(); fill(rng, t, ex, rng.randrange(3)); main.e(34665, 4, [ex])
    le = t.le if rng.random() < .7 else not t.le
    if kind == "odd":
        g = t.group(le, pad=rng.choice([30, 40])); g.blob(rng.choice(ODD).ljust(rng.choice([0, 8, 12, 20]), b"\0")); d = g.dir()
        content(rng, t, d, kind)
    elif kind == "mlt0":
        g = t.group(t.le, pad=20); d = g.dir(); content(rng, t, d, kind); d.es.insert(0, (0, 7, 4, Blob(rng.choice([b"MLT0", b"MLT0", b"MLT1"])), True))
    elif kind == "sony":
        g = t.group(t.le, pad=20); g.blob(rng.choice([b"SONY DSC \0\0\0", b"SONY DSC \0\0\0", b"SONY CAM \0\0\0", b""])); d = g.dir(); content(rng, t, d, kind)
    else:
        g, d = note(t, kind, le=le if kind in ("nikon3",) or rng.random() < .1 else None); content(rng, t, d, kind)
    if rng.random() < .07: g.pad = 0
    r = rng.random()
    if r < .82: ex.at(37500, 7, g, g)
    elif r < .86: ex.at(37500, 7, rng.choice([5, 18, 19, 40]), g)
    elif r < .89: ex.at(37500, rng.choice([1, 3, 2]), 10, g)
    elif r < .92: ex.at(37500, 7, 60, rng.choice([0, 1, 0x7fffffff, 0xffffff00]))
    elif r < .95: ex.e(37500, 7, bytes(rng.randrange(256) for _ in range(rng.choice([1, 4]))))
    elif r < .98: ex.at(37500, 7, 0xffffffff, g)
    ex.es.sort(key=lambda e: e[0])

def tiff(rng, hint, kind, head=None, jpg=False):
    le = (hint == "RW2" and not jpg) or rng.random() < .5
    if head is None: head = {"RW2": b"IIU\0", "ORF": rng.choice([b"IIRO", b"IIRS"] if le else [b"MMOR", b"MMSR"])}.get(hint) if not jpg else None
    t = Tiff(le, rng, gaps=True, head=head)
    main = t.dir(); fill(rng, t, main, rng.randrange(3))
    if rng.random() < .5: main.e(271, 2, rng.choice(["NIKON", "LEICA", "Make", "Minolta", "SONY"]))
    if rng.random() < .5: main.e(274, 3, [rng.randrange(1, 9)])
    if rng.random() < .95: exif(rng, t, main, hint, kind)
    if hint in ("PEF", "CR2") or rng.random() < .3:
        n = t.dir(); main.next = n; fill(rng, t, n, rng.randrange(3))
    return t, main

def one(rng, hint, kind):
    if hint in ("JPEG", "RAF", "RW2"):
        x = tiff(rng, hint, kind, jpg=True)[0].bytes()
        if rng.random() < .06: x = x[:rng.randrange(4, len(x))]
        j = jpeg(rng, 8, 6, exif=x)
        if hint == "JPEG": return j if rng.random() < .95 else j[:rng.randrange(2, len(j))]
        if rng.random() < .04: j = broken(rng, j)
        if hint == "RAF":
            b = bytearray(raf(rng, odd=0, tiff=False)); p = len(b); b += j
            b[0x54:0x58] = p.to_bytes(4, "big"); b[0x58:0x5c] = len(j).to_bytes(4, "big")
            return bytes(b)
        t = Tiff(True, rng, gaps=True, head=b"IIU\0"); m = t.dir(); fill(rng, t, m, 2)
        if rng.random() < .4: exif(rng, t, m, hint, rng.choice(["panasonic", kind]))
        if rng.random() < .92: m.e(46, rng.choice([7, 7, 7, 7, 7, 1]), j)
        m.es.sort(key=lambda e: e[0])
        return t.bytes()
    b = tiff(rng, hint, kind)[0].bytes()
    if rng.random() < .08: b = b[:rng.randrange(max(8, len(b) - 90), len(b))]
    return b

REPEAT = 2
def cases(seed, tier):
    rng = random.Random(seed * 77 + 16)
    out = []
    kinds = list(NOTES) + ["odd", "odd", "odd", "mlt0", "sony"]
    combos = [(h, k) for h in HINTS for k in kinds]
    rest = 250 if tier == "quick" else 9000
    combos += [(rng.choice(HINTS), rng.choice(kinds)) for _ in range(rest)]
    for i, (hint, kind) in enumerate(combos):
        b = one(rng, hint, kind)
        ops = [["ifd", "mnote"], ["ifd", "mnote"], ["ifd", "exif"], ["ifd", "main"], ["meta"], ["get", "Exif.Image.Make"], ["orient"]]
        ops = [["ifd", "mnote"]] + rng.sample(ops, 4)
        rng.shuffle(ops)
        out.append({"id": f"{hint}-{kind}-{i}", "file": b.hex(), "hint": hint, "mode": rng.choice(["mem", "io"]), "kinds": K[hint], "ops": ops})
    return out
ASSUME = ["maker notes that aren't in the byte order of the container: those of Nikon (type 3) and Fujifilm say it; the others are in that of the container",
          "vendors, origins and identifiers as in Exiv2's tables, which the source follows",
          "the maker notes of CR3, CRW and MRW files are specified in C20, C22 and C23"]
