"""Files with everything: directories, previews, raw data, matrices, text."""
from .tiffgen import *
from .rawtiff import start, close
from .jpeggen import jpeg
from .mnote import note
def rich(rng, make="NIKON CORPORATION", model="NIKON D3"):
    t = start(rng, "DNG"); m, e, r, p = t.dir(), t.dir(), t.dir(), t.dir()
    m.e(50706, 1, [1, 3, 0, 0]); m.e(271, 2, make); m.e(272, 2, model); m.e(274, 3, [rng.randint(1, 8)])
    m.e(34665, 4, [e]); m.e(330, 4, [r, p])
    m.e(254, 4, [1]); w, h = rng.randint(4, 9), rng.randint(3, 6)
    b8 = bytes(rng.randrange(256) for _ in range(w * h * 3))
    for tag, v in ((256, w), (257, h)): m.e(tag, 4, [v])
    m.e(258, 3, [8, 8, 8]); m.e(259, 3, [1]); m.e(262, 3, [2]); m.e(277, 3, [3]); m.e(273, 4, [t.blob(b8)]); m.e(279, 4, [len(b8)])
    m.e(50721, 10, [y for x in (12, 1, -2, 0, 9, 1, 2, 0, 8) for y in (x, 10)]); m.e(50778, 3, [17])
    if rng.random() < .6: m.e(50722, 10, [y for x in (8, 1, -2, 0, 9, 1, 2, 0, 11) for y in (x, 10)]); m.e(50779, 3, [21])
    m.e(50728, 5, [5, 10, 10, 10, 7, 10] if rng.random() < .7 else [1, 2])
    if rng.random() < .4: m.e(50729, 5, [3, 10, 35, 100])
    e.e(33434, 5, [1, 250]); e.e(36867, 2, "2020:01:02 03:04:05"); e.e(34855, 3, [400])
    e.e(37121, 7, b"\x01\x02\x03\0"); e.e(40961, 3, list(range(30)))
    if rng.random() < .8:
        g, d = note(t, rng.choice(["nikon3", "olympus", "panasonic", "aoc", "nikon2"])); d.e(1, 3, [7]); d.e(2, 3, [1, 2]); t.chunks.append(g)
        e.at(37500, 7, g.size(), g)
    j = jpeg(rng, 320, 240); p.e(254, 4, [1]); p.e(256, 4, [320]); p.e(257, 4, [240]); p.e(258, 3, [8, 8, 8]); p.e(259, 3, [7]); p.e(262, 3, [6])
    p.e(273, 4, [t.blob(j)]); p.e(279, 4, [len(j)])
    r.e(254, 4, [0]); w, h = rng.randint(3, 9), rng.randint(3, 8)
    for tag, v in ((256, w), (257, h)): r.e(tag, 4, [v])
    d = b"".join(rng.randrange(4096).to_bytes(2, "little" if t.le else "big") for _ in range(w * h))
    r.e(258, 3, [16]); r.e(259, 3, [1]); r.e(262, 3, [32803]); r.e(277, 3, [1]); r.e(33421, 3, [2, 2]); r.e(33422, 1, rng.choice([[0, 1, 1, 2], [1, 0, 2, 1], [2, 1, 1, 0]]))
    r.e(273, 4, [t.blob(d)]); r.e(279, 4, [len(d)]); r.e(50714, 3, [10]); r.e(50717, 3, [4095])
    if rng.random() < .6: r.e(50829, 4, [0, 0, h, w])
    if rng.random() < .6: r.e(50719, 4, [1, 1]); r.e(50720, 4, [w - 1, h - 1])
    return close(t)
def cases(seed, tier):
    rng = random.Random(seed * 13 + 5)
    return [{"id": f"rich-{i}", "file": rich(rng).hex(), "hint": "DNG"} for i in range(40)]
