import json, os
from .rawtiff import *
from .c02 import fill
from .mnote import note
from .ciffgen import Ciff, MODELS, sensor, text
from . import c07, c11, mnote, mrwgen
from .ljpeggen import stream, picture
mnote.KINDS.setdefault("sony", (b"SONY DSC \0\0\0", 12, None, ""))
CAMS = json.load(open(os.path.join(os.path.dirname(__file__), "../spec/data/cameras.json")))
BIG = [0xffffffff, 0xfffffff0, 0x80000000]
def sv(rng): return rng.choice([0, 1, 2, 3, 4095, 65535, rng.randrange(1, 20000), rng.randrange(65536)])
def lv(rng): return rng.choice([0, 1, 5, 100, 65536, 70000] + BIG + [rng.randrange(20000)] * 6)
def small(rng): return rng.choice([0, 1] + [rng.randrange(1, 20000)] * 12)
def arr(rng, d, tag, n, types=(3, 4), f=None, p=.9):
    """values of a tag, sometimes fewer, more or of another type"""
    if rng.random() > p: return
    k = rng.random()
    if k < .06: n = max(0, n - 1)
    elif k < .12: n += rng.choice([1, 2])
    elif k < .14: n = rng.choice([0, 1])
    t = rng.choice(types) if rng.random() < .95 else rng.choice([1, 2, 3, 4, 7, 8, 9])
    if t in (5, 10): vals = [x for _ in range(n) for x in (rng.randrange(20000), rng.randrange(1, 20000))]
    else: vals = [(f or (lv if t in (4, 9) else sv))(rng) for _ in range(n)]
    if t in (1, 2, 6, 7): vals = bytes(v & 127 for v in vals)
    d.e(tag, t, vals)
def words(rng, le, v): return struct.pack(("<" if le else ">") + f"{len(v)}H", *v)
def pixels(rng, t, d, comp=1):
    w, h = rng.randrange(1, 4), rng.randrange(1, 4); data = bytes(rng.randrange(256) for _ in range(2 * w * h))
    d.e(256, 4, [w]); d.e(257, 4, [h]); d.e(258, 3, [16]); d.e(259, 3, [comp]); d.e(273, 4, [t.blob(data)]); d.e(279, 4, [len(data)])
FORCE = None
def some(rng, table):
    """the identifier of a model: any, or the one that is asked for"""
    return FORCE or rng.choice(CAMS["modelids"][table])
def name(rng, hint, d):
    """the name of a model"""
    s = rng.choice(CAMS["models"][hint])["name"]
    while s == "NIKON D100 ": s = rng.choice(CAMS["models"][hint])["name"]
    s = rng.choice([s] * 8 + [s + "x", s[:-1], "abc"])
    if s == "NIKON D100 ": s = "abc"
    if rng.random() < .85: d.e(272, 2, s)
    if hint == "DNG" and rng.random() < .3: d.e(50708, 2, rng.choice(CAMS["models"]["DNG"])["name"])
def withnote(rng, t, main, kinds):
    ex = t.dir(); main.e(34665, 4, [ex])
    k = rng.choice(kinds)
    g, d = note(t, k, le=not t.le if k == "nikon3" and rng.random() < .2 else None); ex.at(37500, 7, g, g)
    return g, d
def u32(rng, x): return [x["hi"] << 16 | x["lo"]] if rng.random() < .9 else [rng.randrange(2**32)]
def tiff(rng, hint):
    t = start(rng, hint); main = t.dir()
    r = rng.random
    d, subs = rawdir(rng, t, hint, main)
    pixels(rng, t, d, 65535 if hint == "PEF" and r() < .5 else 1)
    if hint == "DNG":
        name(rng, hint, main)
        if r() < .8:
            a = [rng.randrange(9), rng.randrange(9), rng.randrange(9, 30), rng.randrange(9, 30)]
            if r() < .1: a[rng.randrange(4)] = rng.choice(BIG + [0, 40])
            a = a[:rng.choice([4] * 12 + [3, 0])] + [7] * rng.choice([0] * 9 + [1])
            d.e(50829, 4 if any(v > 65535 for v in a) else rng.choice([3, 4]), a)
        arr(rng, d, 50719, 2, (3, 4)); arr(rng, d, 50720, 2)
        arr(rng, d, 50714, rng.choice([1, 4, 4])); arr(rng, d, 50717, rng.choice([1, 1, 4]))
        arr(rng, main, 50728, rng.choice([3, 3, 4]), (3, 5, 5, 5), small, p=.6); arr(rng, main, 50729, 2, (5, 5, 3), small, p=.8)
        if d is not main and r() < .1: arr(rng, d, 50728, 3, (5,))
    elif hint == "PEF":
        name(rng, hint, main)
        if r() < .92:
            _, n = withnote(rng, t, main, ["aoc", "aoc", "pentax"])
            if r() < .7: n.e(5, rng.choice([4, 4, 4, 3]), u32(rng, some(rng, "PEF")))
            arr(rng, n, 0x38, 2, (3,)); arr(rng, n, 0x39, 2, (3, 3, 3, 7))
            if r() < .7: n.e(0x80, rng.choice([1, 1, 7, 3]), bytes(rng.randrange(6) for _ in range(rng.choice([1, 1, 2, 0]))))
            arr(rng, n, 0x7e, 1, (4, 3), p=.5); arr(rng, n, 0x200, rng.choice([4, 4, 1]), (3, 3, 4), p=.6); arr(rng, n, 0x201, 4, (3,), small)
    elif hint == "NEF":
        name(rng, hint, main)
        if r() < .95:
            _, n = withnote(rng, t, main, ["nikon3"])
            arr(rng, n, 0x3d, rng.choice([4, 4, 1]), (3,)); arr(rng, n, 0x45, 4, (3, 4))
            k = r()
            if k < .35: arr(rng, n, 0x0c, 4, (5, 5, 5, 3), small)
            if k > .25 and k < .65:
                v = rng.choice([b"0100", b"0103", b"0102", b"0103"])
                b = bytearray(words(rng, n.le, [rng.randrange(1, 20000) for _ in range(rng.choice([100, 40, 13, 12, 39, 5]))])); b[:4] = v
                n.e(0x97, 7, bytes(b))
            elif k > .6 and k < .9:
                q = r()
                if q < .4:
                    b = bytearray(2560); b[:4] = b"Q 10"
                    struct.pack_into(">HH", b, 1248, rng.randrange(1, 20000), rng.randrange(1, 20000))
                else:
                    m = rng.choice([80, 73, 72, 1573, 1600, 1572, 8, 100])
                    b = bytearray(m); b[:4] = b"NRW " if r() < .9 else b"NRX "; b[4:8] = b"0100" if m > 1000 or r() < .3 else b"0101"
                    for o in (56, 1556):
                        if m >= o + 16: struct.pack_into("<4I", b, o, rng.randrange(1, 5000), rng.randrange(9999), rng.randrange(1, 9999), rng.randrange(1, 5000))
                n.e(0x14, 7, bytes(b))
            n.es.sort(key=lambda e: e[0])
    elif hint == "ORF":
        name(rng, hint, main)
        if r() < .95:
            g, n = withnote(rng, t, main, ["olympus2", "om", "olympus"]); rel = n.base
            R = lambda c: Ref(c, -rel.d, rel.c) if isinstance(rel, Ref) else c
            if r() < .4: arr(rng, n, 0x1017, 2, (3,), small, p=1); arr(rng, n, 0x1018, 2, (3,), small)
            if r() < .92:
                ip = g.dir(base=rel)
                arr(rng, ip, 0x100, rng.choice([2, 4]), (3,), small); arr(rng, ip, 0x600, rng.choice([4, 4, 1]), (3,))
                if r() < .8:
                    for q in range(0x612, 0x616):
                        if r() < .96: arr(rng, ip, q, 1, (3, 4), p=1, f=(lambda g: g.choice([0, 1, 5, 40, 100])) if r() < .97 else None)
                if r() < .8:
                    a = [rng.randrange(9), rng.randrange(9), rng.randrange(9, 30), rng.randrange(9, 30)]
                    if r() < .1: a[rng.randrange(4)] = rng.choice([65535, 0, 40])
                    ip.e(0x1113, rng.choice([3, 4]), a[:rng.choice([4] * 12 + [3])])
                n.e(0x2040, rng.choice([13, 4]), [R(ip)])
    elif hint == "ERF":
        name(rng, hint, main)
        if r() < .95:
            _, n = withnote(rng, t, main, ["epson"])
            arr(rng, n, 0x400, 4, (3,)); arr(rng, n, 0x401, rng.choice([4, 4, 1]), (3, 4))
            k = rng.choice([26, 26, 26, 30, 25, 24])
            if r() < .9: n.e(0xe80, rng.choice([3, 3, 3, 7]), words(rng, t.le, [rng.choice([0] + [rng.randrange(1, 60000)] * 9) for _ in range(k)]))
    elif hint == "ARW":
        if r() < .3: name(rng, hint, main)
        if FORCE or r() < .9:
            _, n = withnote(rng, t, main, ["sony", "none"])
            m = some(rng, "ARW")
            if r() < .92: n.e(0xb001, rng.choice([4, 3, 3]), [m["lo"]] if r() < .95 else [rng.choice([0, 9999])])
            k = rng.choice([86, 100, 85, 11, 10, 3])
            if r() < .8:
                if r() < .5: n.e(0x114, rng.choice([3, 7]), [rng.choice([1, 2, 3]) for _ in range(k)])
                else: n.e(0x114, rng.choice([1, 7]), bytes(rng.choice([4, 8, 5]) for _ in range(k)))
            if r() < .8: n.e(0x2010, rng.choice([7, 7, 1]), bytes(rng.choice([0, 1, 8, 27, 64, 200, 249, 255]) for _ in range(rng.choice([6500, 6489, 6488, 6445, 6444, 6285, 6284]))) if r() < .5 else b"\x08" * 6600)
        arr(rng, d, 0x7310, rng.choice([4, 4, 1]), (3,), p=.2 if FORCE else .6); arr(rng, d, 0x7313, 4, (8, 8, 9, 3, 4), small)
        arr(rng, d, 0x74c7, 2, (4, 3)); arr(rng, d, 0x74c8, 2, (4, 3)); arr(rng, d, 50717, rng.choice([1, 4, 3]), (3,), p=.5)
    return close(t)
SIZES = [582, 653, 796, 1250, 1251, 1273, 1275, 1506, 1560, 1816, 1820, 1824, 2024, 3656, 3973, 3778, 1337, 1338, 1346, 600, 71, 300]
VERSIONS = list(range(17)) + [100, 0xfffc, 0xfffd]
OLD = [m for m in CAMS["modelids"]["CANON"] if m["hi"] == 0x8000 and m["lo"] in (1, 0x167)]
def colour(rng, of=None):
    n, v = of or (rng.choice(SIZES), 0)
    v = v if of else rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0xfffc, 0xfffd, 16, 0, 100])
    return [v] + [rng.randrange(1, 20000) for _ in range(n - 1)]
def cr2(rng, skip=None, of=None):
    t = Tiff(rng.random() < .7, rng, gaps=True); main = t.dir(); a = t.dir(); b = t.dir(); d = t.dir(); r = rng.random
    main.next = a; a.next = b
    if r() < .97: b.next = d
    if skip is None: skip = r() < .8
    # the first 1D: the maker note says where the raw data is
    old = not of and not FORCE and r() < .2
    if r() < .8: main.e(271, 2, "Canon"); main.e(272, 2, rng.choice(CAMS["models"]["CANON"])["name"] if not old or r() < .6 else rng.choice(["Canon EOS-1D", "Canon EOS-1DS"]))
    w, h = 2 * rng.randrange(1, 4), rng.randrange(1, 4)
    prec = rng.choice([10, 12, 14]); data = bytes(20) if skip else stream(rng, w // 2, h, 2, prec=prec)
    arr(rng, d, 0xa002, 1, (4, 3)); arr(rng, d, 0xa003, 1, (4, 3))
    if r() < .97: d.e(273, 4, [t.blob(data)])
    if r() < .97: d.e(279, 4, [len(data)])
    arr(rng, d, 0xc5e0, 1, (4, 4, 3), lambda g: g.choice([1, 3, 3, 2, 4]), p=.7)
    if of or r() < .95:
        _, n = withnote(rng, t, main, ["none"])
        m = rng.choice(OLD) if old else some(rng, "CANON")
        if of or r() < .9: n.e(0x10, rng.choice([4] * 9 + [3]), u32(rng, m))
        if m in OLD or r() < .1:
            data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 40]))) if skip else stream(rng, w // 2, h, 2, prec=prec)
            if r() < .95: n.e(0x81, rng.choice([4, 4, 4, 3, 7]), [t.blob(data) if r() < .95 else rng.choice([0, 8, 60000])])
            if r() < .7: n.e(0x82, rng.choice([4, 4, 3]), [rng.choice([len(data)] * 5 + [len(data) // 2, 0, 60000])])
            arr(rng, n, 0xa4, rng.choice([3, 4, 4, 5, 2, 1]), (3, 4), small, p=.85)
        if r() < .8:
            l, p = rng.randrange(30), rng.randrange(30)
            v = [34, 100, 90, 1, 1, l, p, l + rng.choice([0, 1, 2, 17, 50]), p + rng.choice([1, 2, 17, 50]), 0, 0][:rng.choice([11, 9, 11, 8])]
            if r() < .1: v[rng.randrange(5, min(9, len(v)))] = rng.choice([0, 65535])
            n.e(0xe0, rng.choice([3, 3, 3, 7]), v if r() < .9 else v[:5])
        if r() < .8: n.e(0x9a, 4, [rng.choice([0, 1, 2, 7, 8, 12, 13, 256, 258, 5, 0xffffffff]), lv(rng), lv(rng), lv(rng), lv(rng)][:rng.choice([5, 5, 5, 4])])
        if of or r() < .85: n.e(0x4001, rng.choice([3, 3, 3, 3, 7]), colour(rng)) if not of else n.e(0x4001, 3, colour(rng, of))
        n.es.sort(key=lambda e: e[0])
    return close(t), skip
def crw(rng):
    c = Ciff(rng); r = rng.random
    w, h = rng.choice([(8, 8), (4, 4), (16, 4)]); k = rng.randrange(3)
    skip = r() < .6
    c.root.add(0x2005, c11.raw(rng, w, h, k, r() < .5))
    c.props.add(0x1810, c.d(w, h, 0x3f800000, 0, 10, 24, 257))
    c.exif.add(0x1835, c.d(k, 0, 0, 0))
    if r() < .9: c.exif.add(0x1031, sensor(rng, c, w, h))
    if FORCE: id, nm = FORCE["hi"] << 16 | FORCE["lo"], "Canon"
    else: id, nm = rng.choice(MODELS + [(m["hi"] << 16 | m["lo"], "Canon") for m in CAMS["modelids"]["CANON"]])
    q = r()
    if FORCE or q < .5: c.exif.add(0x1834, c.d(id if r() < .9 else 77), inline=r() < .3)
    if r() < .8: c.camera.add(0x080a, b"Canon\0" + (nm if r() < .5 else rng.choice(CAMS["models"]["CANON"])["name"]).encode() + b"\0")
    v = lambda n: [rng.randrange(1, 9999) for _ in range(n)]
    if r() < .4:
        b = v(80); b[0] = rng.choice([276, 276, 512, 513, 275, 277, 0, 20000]); c.exif.add(0x102c, c.w(*b), inline=r() < .1)
    if r() < .5:
        n = rng.choice([384, 384, 385, 500, 383, 100]); b = v(n)
        if n == 384: b[36:40] = [rng.randrange(1, 40) for _ in range(4)]
        if n >= 385 and r() < .5:
            for o in (48, 60): b[o] ^= 0x410; b[o + 1] ^= 0x45f3; b[o + 2] ^= 0x410
        b = [x % 20000 for x in b]
        c.exif.add(0x0032, c.w(*b), inline=r() < .1)
    if r() < .85: b = v(20); b[7] = rng.choice(list(range(12)) + [65535]); c.exif.add(0x102a, c.w(*b), inline=r() < .05)
    if r() < .85: c.exif.add(0x10a9, c.w(*v(60)), inline=r() < .05)
    c.link(); return c.bytes(), skip
def a100(rng):
    """the raw data of a DSLR-A100 is described by a Minolta header"""
    t = start(rng, "ARW"); main = t.dir(); r = rng.random
    if r() < .2: fill(rng, t, main, 2)
    main.e(272, 2, "DSLR-A100" if r() < .96 else rng.choice(["DSLR-A100 ", "DSLR-A10", "DSLR-A100\0x"]))
    if r() < .5: d, _ = rawdir(rng, t, "ARW", main); pixels(rng, t, d)
    if r() < .3:
        _, n = withnote(rng, t, main, ["sony", "none"])
        m = some(rng, "ARW")
        if r() < .92: n.e(0xb001, rng.choice([4, 3, 3]), [m["lo"]])
    main.es = [e for e in main.es if e[0] not in (330, 50740)]
    m = mrwgen.mrw(rng, full=r() < .3, end="<" if r() < .97 else ">")
    if r() < .08: m = m[:rng.randrange(len(m))]
    k = t.blob(m); raw = t.blob(bytes(rng.randrange(256) for _ in range(rng.choice([0, 4, 60, 250]))))
    if r() < .95: main.e(330, rng.choice([4, 4, 4, 13, 7]) if r() < .3 else 4, [raw if r() < .94 else rng.choice([0, 10, 1 << 20, 0xfffffff0])])
    if r() < .95:
        # the offset of the header, little endian in any file
        ty = rng.choice([1, 1, 7, 7, 4, 3]) if r() < .3 else 1
        v = Value(Enc(True), 4, [k if r() < .97 else rng.choice([0, 1 << 20, 0xfffffff0])] + [rng.randrange(2**32)] * rng.choice([0, 0, 0, 1]))
        cnt = v.size() // UNIT[ty] if r() < .95 else 3
        if v.size() > 4: t.chunks.append(v)
        main.es.append((50740, ty, cnt, v, v.size() <= 4))
    main.es.sort(key=lambda e: e[0])
    return close(t)
REPEAT = 4
def cases(seed, tier):
    rng = random.Random(seed * 77 + 15); out = []
    q = tier == "quick"
    for hint, n in (("DNG", 110), ("PEF", 90), ("NEF", 100), ("ORF", 100), ("ERF", 50), ("ARW", 110), ("CR2", 160), ("CRW", 160)):
        for i in range(n if q else 15 * n):
            skip = True
            if hint == "CR2": b, skip = cr2(rng)
            elif hint == "CRW": b, skip = crw(rng)
            else: b = tiff(rng, hint)
            out.append({"id": f"{hint}-{i}", "file": b.hex(), "hint": hint, "mode": rng.choice(["mem", "io"]), "kinds": K.get(hint, ["Main"]), "ops": [["raw", skip]]})
    for i in range(60 if q else 900):
        out.append({"id": f"A100-{i}", "file": a100(rng).hex(), "hint": "ARW", "mode": rng.choice(["mem", "io"]), "kinds": ["Main"], "ops": [["raw", rng.random() < .5]]})
    # every model that can be told: its built-in levels and the versions of its data
    global FORCE
    for hint, table in (("CR2", "CANON"), ("PEF", "PEF"), ("ARW", "ARW"), ("CRW", "CANON")):
        for i, m in enumerate(CAMS["modelids"][table]):
            if hint == "CRW" and m in OLD: continue
            FORCE = m; skip = True
            if hint == "CR2": b, skip = cr2(rng)
            elif hint == "CRW": b, skip = crw(rng)
            else: b = tiff(rng, hint)
            FORCE = None
            out.append({"id": f"model-{hint}-{i}", "file": b.hex(), "hint": hint, "mode": "mem", "kinds": K.get(hint, ["Main"]), "ops": [["raw", skip]]})
    # every size and version of the colour data
    for n in SIZES:
        for v in VERSIONS if q else VERSIONS + [17, 9999, 32768]:
            b, skip = cr2(rng, True, (n, v))
            out.append({"id": f"colour-{n}-{v}", "file": b.hex(), "hint": "CR2", "mode": "mem", "kinds": K["CR2"], "ops": [["raw", skip]]})
    return out
ASSUME = ["the terms of white balance fractions are up to 20000", "Nikon white balance in encrypted colour balance blocks isn't specified",
          "the green multiplier of a Nikon NEF may be either way up"]
