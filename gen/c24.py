"""Camera identity and colour calibration: every model and identifier there is
a name for, variations of them, and calibration tags of all kinds."""
import random, struct
from .c15 import *
from .mrwgen import mrw, VERSIONS
from .jpeggen import jpeg
from .rafgen import raf
from .cr3gen import Cr3, Trk
NOTEKINDS = {"PEF": ["aoc", "pentax"], "ARW": ["sony", "none"], "CR2": ["none"], "NEF": ["nikon3"], "ORF": ["olympus2"], "ERF": ["epson"]}
ONLYNOTEKINDS = {"CR2": ("CANON", 0x10), "PEF": ("PEF", 5), "ARW": ("ARW", 0xb001)}
def calib(rng, d, p=.5):
    for i in (0, 1):
        if rng.random() < p:
            d.e(50778 + i, rng.choice([3, 3, 3, 4, 5, 2]), rng.choice([[rng.choice([0, 1, 2, 3, 4, 9, 10, 15, 16, 17, 20, 21, 22, 23, 24, 255, 5, 8, 25, 254, 256, 65535])], [21, 17], []]))
            if d.es[-1][1] == 5: d.es.pop(); d.e(50778 + i, 5, [rng.choice([17, 42, 21]), rng.choice([1, 2, 0])])
        if rng.random() < p:
            k = rng.random(); n = rng.choice([9, 9, 9, 9, 12, 3, 8, 10])
            r = [x for _ in range(n) for x in (rng.randrange(-20000, 20001) & 0xffffffff, rng.choice([10000, 10000, 1, 3, 20000, 0]))]
            if k < .8: d.e(50721 + i, 10, r)
            elif k < .87: d.e(50721 + i, 7, b"".join(struct.pack("<I" if d.le else ">I", x) for x in r) + bytes(rng.randrange(8)))
            elif k < .92: d.e(50721 + i, 10, [])
            else: d.e(50721 + i, rng.choice([5, 9, 3]), [1, 1, 2, 1])
def one(rng, hint, model=None, id=None, unique=None, cal=.5, junk=True):
    head = b"IIU\0" if hint == "RW2" else rng.choice([b"IIRO", b"IIRS"]) if hint == "ORF" else None
    le = True if head else rng.random() < .5
    t = Tiff(le, rng, gaps=True, head=head); main = t.dir(); r = rng.random
    if hint == "CR2":
        prev = main
        for _ in range(rng.choice([3, 3, 0, 2])): x = t.dir(); prev.next = x; prev = x
    if model is not None: main.e(272, 2, model)
    if unique is not None: main.e(50708, 2, unique)
    if junk and r() < .4: main.e(271, 2, rng.choice(["Canon", "NIKON CORPORATION", "SONY", "x"]))
    if hint != "RW2" or r() < .5: calib(rng, main, cal)
    if hint in NOTEKINDS and (id is not None or (hint not in ONLYNOTEKINDS and r() < .3)):
        ex = t.dir(); main.e(34665, 4, [ex]); g, d = note(t, rng.choice(NOTEKINDS[hint])); ex.at(37500, 7, g, g)
        if id is not None and hint in ONLYNOTEKINDS: d.e(ONLYNOTEKINDS[hint][1], 4 if hint == "CR2" or id > 65535 else rng.choice([3, 4]), [id])
        elif id is not None: d.e(5, 4, [id])
        if r() < .3: d.e(0xb0, 3, [7])
    # calibration elsewhere is not that of the file
    if r() < .15:
        x = t.dir(); calib(rng, x, .7); main.e(330, 4, [x])
    return close(t)
def rawone(rng, hint):
    """with an image"""
    t = start(rng, hint); main = t.dir(); d, _ = rawdir(rng, t, hint, main)
    pixels(rng, t, d); name(rng, hint, main); calib(rng, main, .5)
    return close(t)
def crw(rng, name, id):
    c = Ciff(rng); r = rng.random
    if id is not None: c.exif.add(0x1834, c.d(id), inline=r() < .3)
    if name is not None: c.camera.add(0x080a, b"Canon\0" + name.encode() + b"\0")
    c.props.add(0x1810, c.d(4, 4, 0x3f800000, 0, 10, 24, 257)); c.link()
    return c.bytes()
def cr3(rng, id, cal):
    c = Cr3(rng)
    m = Tiff(rng.random() < .5, rng, gaps=True); d = m.dir(); calib(rng, d, cal); d.e(272, 2, rng.choice(CAMS["models"]["CANON"])["name"])
    n = Tiff(rng.random() < .5, rng, gaps=True); x = n.dir()
    if id is not None: x.e(16, 4, [id])
    c.blocks = {1: m.bytes(), 3: n.bytes()}
    c.tracks = [Trk(w=9, h=9, off=b"abc", jpeg=i == 0) for i in range(3)]
    return c.bytes()
def twist(rng, s):
    return rng.choice([s + " ", s[:-1], s.lower(), s.rstrip(), s.strip() + "\0" + "x", s[:3], "", s.replace(" ", "_"), s + "\0\0", s[1:]])
REPEAT = 5
def cases(seed, tier):
    rng = random.Random(seed * 77 + 24); out = []
    def add(id, hint, b, ops=None):
        ops = ops or [["ids"], ["cal"]]; rng.shuffle(ops)
        out.append({"id": id, "file": b.hex(), "hint": hint, "mode": rng.choice(["mem", "io"]), "kinds": K.get(hint, ["Main"]), "ops": ops})
    # every name and identifier
    for hint in ("DNG", "NEF", "PEF", "ORF", "RW2", "ERF", "ARW"):
        for i, m in enumerate(CAMS["models"][hint]):
            add(f"name-{hint}-{i}", hint, one(rng, hint, model=m["name"], cal=.1))
            if hint == "DNG" and i % 3 == 0: add(f"unique-{i}", hint, one(rng, hint, unique=m["name"], cal=.1))
    for hint, (table, _) in ONLYNOTEKINDS.items():
        for i, m in enumerate(CAMS["modelids"][table]): add(f"id-{hint}-{i}", hint, one(rng, hint, id=m["hi"] << 16 | m["lo"], cal=.1))
    for i, m in enumerate(CAMS["modelids"]["CANON"]): add(f"crwid-{i}", "CRW", crw(rng, None, m["hi"] << 16 | m["lo"]))
    for i, m in enumerate(CAMS["models"]["CANON"]): add(f"crwname-{i}", "CRW", crw(rng, m["name"], rng.choice([None, None, 77])))
    for i, m in enumerate(CAMS["modelids"]["CANON"]): add(f"cr3id-{i}", "CR3", cr3(rng, m["hi"] << 16 | m["lo"], .1))
    for i, m in enumerate(CAMS["models"]["RAF"]): add(f"name-RAF-{i}", "RAF", raf(rng, model=m["name"], odd=0, extra=lambda d: calib(rng, d, .1)))
    # and what isn't quite one
    n = 400 if tier == "quick" else 6000
    for i in range(n):
        hint = rng.choice(["DNG", "DNG", "NEF", "PEF", "ORF", "RW2", "ERF", "ARW", "CR2", "CRW", "MRW", "RAF", "JPEG", "CR3"])
        r = rng.random; ops = None
        if hint == "MRW": b = mrw(rng)
        elif hint == "RAF":
            m = rng.choice(CAMS["models"]["RAF"])["name"]
            b = raf(rng, model=rng.choice([m, twist(rng, m)]), odd=.3, extra=lambda d: calib(rng, d, .6)); ops = [["ids"], ["cal"], ["raw", True]]
        elif hint == "JPEG": b = jpeg(rng, 8, 8)
        elif hint == "CR3":
            x = rng.choice(CAMS["modelids"]["CANON"]); x = x["hi"] << 16 | x["lo"]
            b = cr3(rng, rng.choice([x, x, x ^ 1 << rng.randrange(32), None]), .6); ops = [["ids"], ["cal"], ["raw", True]]
        elif hint == "CRW":
            m = rng.choice(CAMS["models"]["CANON"])["name"]; x = rng.choice(CAMS["modelids"]["CANON"]); x = x["hi"] << 16 | x["lo"]
            b = crw(rng, rng.choice([m, twist(rng, m), None]), rng.choice([x, x ^ 1 << rng.randrange(32), None]))
        else:
            tb = "CANON" if hint == "CR2" else hint
            m = rng.choice(CAMS["models"][tb])["name"]; m = rng.choice([m, m, twist(rng, m), None])
            x = None
            if hint in ONLYNOTEKINDS:
                x = rng.choice(CAMS["modelids"][tb]); x = x["hi"] << 16 | x["lo"]; x = rng.choice([x, x, (x ^ 1 << rng.randrange(32)) % 2**32, None])
            u = rng.choice(CAMS["models"]["DNG"])["name"] if r() < .3 else None
            b = one(rng, hint, m, x, u)
        add(f"mix-{i}", hint, b, ops)
    for i in range(n // 2):
        hint = rng.choice(["DNG", "DNG", "NEF", "PEF", "ORF", "ERF", "ARW"])
        add(f"raw-{i}", hint, rawone(rng, hint), [["raw", True], ["cal"], ["ids"]])
    return out
ASSUME = ["model names are ASCII", "the built-in tables are those of the pinned commit"]
