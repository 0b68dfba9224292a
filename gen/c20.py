from .ciffgen import *
def settings(rng, c):
    v = [rng.randrange(0, 9) for _ in range(rng.choice([46] * 6 + [5, 18, 21, 25, 26, 1]))]
    v[0] = 2 * len(v)
    if len(v) > 4: v[1] = rng.choice([0, 1, 1, 2]); v[4] = rng.choice([0, 1, 2, 3, 4, 5, 6, 16])
    if len(v) > 25: v[25] = rng.choice([1, 1, 0, 32, 1000])
    return c.w(*v)
def mk(rng):
    c = Ciff(rng); r = rng.random
    make = rng.choice([b"Canon", b"Canon", b"", text(rng)]); model = rng.choice(MODELS)[1].encode()
    mm = make + b"\0" + model + rng.choice([b"\0", b"", b"\0\0\0\0", b"\0extra"])
    if r() < .06: mm = make
    if r() < .95: c.camera.add(0x080a, mm)
    if r() < .5: c.camera.add(0x080b, b"Firmware 1.0\0")
    owner = text(rng, 30) + rng.choice([b"\0", b"", b"\0" * 5, b"\0more\0", b"\xff\0"])
    h = c.camera if r() < .7 else rng.choice([c.props, c.exif])
    if r() < .8: h.add(0x0810, text(rng, 9), True) if r() < .2 else h.add(0x0810, owner)
    dims = [rng.choice([2048, 3072, 1, 0, 65536, rng.randrange(1 << 31), 0xffffffff]) for _ in range(2)]
    info = c.d(dims[0], dims[1], 0x3f800000, rng.choice([0, 90, 180, 270, 270, 90, 45, -90]), rng.choice([8, 10, 12, 12, 65548]), 24, 257)
    if r() < .05: info = info[:rng.randrange(28)]
    if r() < .95: c.props.add(0x1810, info)
    times = [0, 86399, 951782400, 951868800, 1078012800, 1582934400, 2147483647] + [rng.randrange(1 << 31) for _ in range(12)]
    t = c.d(rng.choice(times), 0, 0)
    if r() < .9: (c.props if r() < .7 else c.exif).add(0x180e, t[:rng.choice([12, 12, 12, 12, 8, 4, 3, 0])], r() < .3)
    if r() < .9: (c.exif if r() < .7 else c.props).add(0x180b, c.d(rng.choice([0, 1, 0x12345678, 0xffffffff, rng.randrange(1 << 32), 0x0a0b])) * rng.choice([1, 1, 1, 2, 0]), r() < .4)
    if r() < .9: c.exif.add(0x102d, settings(rng, c), r() < .04)
    if r() < .9: (c.exif if r() < .8 else c.props).add(0x1029, c.w(2, rng.choice([18, 50, 200, 0, 65535, rng.randrange(65536)]), 907, 605)[:rng.choice([8, 8, 8, 8, 2, 0])], r() < .3)
    if r() < .8: c.exif.add(0x1834, c.d(rng.choice(MODELS)[0])[:rng.choice([4] * 9 + [0])], r() < .3)
    if r() < .6: c.exif.add(0x1031, sensor(rng, c, 100, 50))
    if r() < .5:   # more heaps
        s = Heap(c.le, rng)
        s.add(rng.choice([0x1010, 0x1011, 0x100a]), c.w(1), True)
        rng.choice([c.exif, c.props]).add(rng.choice([0x3002, 0x3003, 0x2804, 0x3004]), s)
        if r() < .6:   # records below, possibly deep
            for _ in range(rng.randrange(4)):
                u = Heap(c.le, rng); s.add(rng.choice([0x3002, 0x3003]), u); s = u
            moved = [(h, x) for h in (c.camera, c.props, c.exif) for x in h.rs if x.code in (0x0810, 0x180b, 0x180e, 0x1029)]
            if moved:
                h, x = rng.choice(moved); h.rs.remove(x); s.rs.append(x)
    if r() < .4: c.props.add(rng.choice([0x1817, 0x0817, 0x0815, 0x0816]), text(rng, 9), True)
    if r() < .3: c.root.add(1, bytes(rng.randrange(4)))
    if r() < .3:
        h = rng.choice([c.props, c.exif, c.camera])
        if h.rs:
            x = rng.choice(h.rs)
            if x.code not in (0x0810,): h.rs.insert(rng.randrange(len(h.rs)), Rec(x.code, c.d(7, 7, 7, 7, 7, 7, 7) if not x.inline else bytes(8), x.inline))
    for h in (c.props, c.exif, c.camera):
        if r() < .3: h.add(rng.choice([0x0003, 0x1fff, 0x3fff, 0x0dad]), b"unknown!", r() < .5)
    if r() < .85:
        j = jpeg(rng, rng.choice([160, 640, 2048, 0]), rng.choice([120, 480, 1536, 0]))
        if r() < .1: j = broken(rng, j)
        c.root.add(0x2007, j, r() < .03)
    if r() < .5: c.root.add(0x2005, bytes(rng.randrange(256) for _ in range(60)))
    k = r()
    if k < .03: c.link(); c.props.rs = [x for x in c.props.rs if x.code != 0x300b]
    elif k < .06: c.link(); c.root.rs = [x for x in c.root.rs if x.code != 0x300a]
    elif k < .9: c.link()
    else: c.link(False)
    b = bytearray(c.bytes())
    k = r()
    if k < .04: b = b[:rng.randrange(4, len(b))]
    elif k < .07: b[2:6] = c.d(rng.choice([0, 1, 25, len(b) - 5, len(b) - 2, len(b), len(b) + 1, 0x7fffffff, 0xffffffff]))
    elif k < .10: b[-4:] = c.d(rng.choice([0, 1, len(b), len(b) - 30, len(b) - 31, 0x80000000, 0xffffffff]))
    elif k < .13: p = rng.randrange(len(b) - 4); b[p:p + 4] = c.d(rng.choice([0, 0xffffffff, 0x7fffffff, len(b), 26]))
    return bytes(b)
REPEAT = 2
def cases(seed, tier):
    rng = random.Random(seed * 77 + 20)
    out = []
    for i in range(2400 if tier == "quick" else 25000):
        b = mk(rng)
        ops = [["meta"], ["get", "Exif.Image.Make"], ["get", "Exif.Image.Model"], ["get", "Exif.Photo.BodySerialNumber"], ["orient"], ["ifd", "main"], ["ifd", "exif"], ["ifd", "mnote"],
               ["sizes"], ["thumb", rng.choice([0, 1, 160, 640, 641, 2048])]]
        rng.shuffle(ops)
        out.append({"id": f"crw-{i}", "file": b.hex(), "hint": "CRW", "mode": rng.choice(["mem", "io"]), "kinds": ["Main"], "ops": ops})
    return out
ASSUME = ["dates up to 2038", "an orientation of 0 stands for a rotation that has no Exif value", "metadata found in several heaps is that of the last in the order of record codes, those of the Exif heap last"]
