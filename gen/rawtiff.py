"""TIFF based raw files with a raw directory."""
import random
from .tiffgen import *
from .c04 import K

CFAS = [bytes(p) for p in ([0, 1, 1, 2], [1, 2, 0, 1], [2, 1, 1, 0], [1, 0, 2, 1])]
def cfa(rng, d, p=.5):
    if rng.random() < p:
        d.e(33422, rng.choice([1, 1, 1, 7, 3]), rng.choice(CFAS + [bytes([0, 0, 0, 0]), bytes(rng.choice([0, 1, 2]) for _ in range(36)), bytes([1, 1, 5] * 3), bytes(3)]))
    if rng.random() < p / 2:
        d.e(41730, 7, rng.choice([b"\2\0\2\0", b"\0\2\0\2", b"\6\0\6\0", b"\2\0\6\0"]) + rng.choice(CFAS) + rng.choice([b"", b"\0"]))

def rowlen(bpc, w, pad): return w // 10 * 16 if pad else (w * bpc + 7) // 8

def image(rng, t, d, hint, comps=None, w=None, h=None, bits=None):
    """a raw image in directory d"""
    w = w or rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 10, 12, 15, 20, 20, 21]); h = h or rng.randrange(1, 7)
    comp = rng.choice(comps or [1, 1, 1, 1, None, 32769, 32769, 32773, 7, 7, 6, 34713, 34892, 8, 2, 65535])
    bits = bits or rng.choice([8, 10, 12, 12, 12, 14, 14, 16, 16, 16] + [0, 1, 9, 32, 33])
    pad = comp == 32769 and bits == 12
    if pad and rng.random() < .8: w = rng.choice([10, 20, 30])
    plain = comp in (1, None, 32769, 32773)
    word = bits == 16 or (bits in (12, 14) and plain and rng.random() < .25)
    n = 2 * w * h if word else rowlen(bits, w, pad) * h
    if not plain: n = rng.randrange(1, 60)
    r = rng.random()
    if r < .06: n = max(0, n - rng.choice([1, 2, 3]))
    elif r < .16: n += rng.choice([1, 2, 3, 16, n])
    data = bytes(rng.randrange(256) for _ in range(n))
    if rng.random() < .97: d.e(256, rng.choice([3, 4, 4, 4]), [w])
    if rng.random() < .97: d.e(257, rng.choice([3, 4, 4, 4]), [h])
    if rng.random() < .96: d.e(258, 3, [bits])
    if comp is not None: d.e(259, rng.choice([3, 3, 3, 4]), [comp])
    if rng.random() < .5: d.e(262, 3, [rng.choice([32803, 32803, 34892, 2, 1, 7])])
    if rng.random() < .3: d.e(50712, rng.choice([3, 3, 3, 3, 4]), [rng.randrange(65536) for _ in range(rng.choice([1, 2, 3, 8, 16]))])
    cfa(rng, d)
    tiled = rng.random() < (.35 if not plain else .03)
    typ = rng.choice([4, 4, 4, 3])
    if tiled:
        k = rng.choice([1, 2, 3, 4])
        bl = [t.blob(bytes(rng.randrange(256) for _ in range(rng.randrange(0, 12)))) for _ in range(k)]
        offs = list(bl); cnts = [len(b.data) for b in bl]
        if rng.random() < .1: offs[-1] = 1000000
        if rng.random() < .1: cnts[0] = rng.choice([100000, len(bl[0].data) + 3])
        if rng.random() < .1: cnts.append(3)
        d.e(324, typ, offs)
        if rng.random() < .95: d.e(325, rng.choice([3, 4]), cnts)
        if rng.random() < .9: d.e(322, rng.choice([3, 4]), [rng.choice([2, 4, w])]); d.e(323, 4, [rng.choice([2, h])])
    elif rng.random() < .04:
        pass
    else:
        k = rng.choice([1, 1, 1, 2, 3, 4])
        cuts = sorted(rng.randrange(0, n + 1) for _ in range(k - 1))
        parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [n])]
        r = rng.random()
        cnts = [len(p) for p in parts]
        if r < .45:   # one run
            g = t.group(); offs = [g.blob(p) for p in parts]
            if rng.random() < .2: offs = offs[:1]
        else:
            offs = [t.blob(p) for p in parts]
        r = rng.random()
        if r < .04: cnts[0] = rng.choice([0xffffffff, 0x80000000, 1 << 20])
        elif r < .06: offs[-1] = rng.choice([1 << 20, 0xffffffff])
        if rng.random() < .97: d.e(273, typ, offs)
        if rng.random() < .95: d.e(279, rng.choice([3, 4, 4]) if max(cnts) < 65536 else 4, cnts)
    return w, h

HEADS = {"ORF": [b"IIRO", b"IIRS", b"MMOR", b"MMSR"]}
def start(rng, hint):
    le = rng.random() < .5
    if hint == "ORF": head = rng.choice(HEADS["ORF"]); le = head[0] == 0x49
    else: head = None
    t = Tiff(le, rng, gaps=True, head=head)
    return t

def rawdir(rng, t, hint, main):
    """the directory of the raw image, main or a sub directory"""
    if hint in ("ORF", "PEF"):
        if rng.random() < .5: main.e(254, 4, [rng.choice([0, 1])])
        return main, []
    r = rng.random()
    if r < .25:
        main.e(254, rng.choice([4, 4, 4, 4, 3]), [0]); return main, []
    if r < .9: main.e(254, 4, [1])
    subs = [t.dir() for _ in range(rng.choice([1, 2, 3]))]
    k = rng.randrange(len(subs))
    for i, s in enumerate(subs):
        if i == k: s.e(254, rng.choice([4] * 19 + [3]), [0])
        elif rng.random() < .8: s.e(254, 4, [1] if i < k else [rng.choice([0, 1])])
        if i != k and rng.random() < .3: image(rng, t, s, hint)
    refs = list(subs)
    while rng.random() < .3: refs.insert(rng.randrange(len(refs) + 1), rng.choice([0, 0, 3, 1 << 24, 0xffffffff]))
    main.e(330, 4, refs)
    return subs[k], subs
def close(t):
    for c in t.chunks:
        if isinstance(c, Dir): c.es.sort(key=lambda e: e[0])
    return t.bytes()
