"""Lossless JPEG streams."""
import struct
from .jpeggen import seg
def huff(rng, need):
    """random table with codes for the categories in need: (bits[16], vals, {cat: (code, len)})"""
    syms = set(need)
    for _ in range(rng.randrange(0, 5)): syms.add(rng.randrange(0, 17))
    syms = list(syms); rng.shuffle(syms)
    n = len(syms)
    shape = rng.random()
    while True:
        lens = []
        if shape < .25:      # long codes
            lens = sorted(rng.choice([rng.randrange(2, 17), rng.randrange(9, 17)]) for _ in range(n))
        elif shape < .45: lens = [min(16, i + 1) for i in range(n)]
        else: lens = sorted(rng.randrange(1, 10) for _ in range(n))
        if sum(2 ** (16 - l) for l in lens) < 65536: break
        shape = rng.random()
    bits = [lens.count(l) for l in range(1, 17)]
    code, codes, k = 0, {}, 0
    for l in range(1, 17):
        for _ in range(bits[l - 1]): codes[syms[k]] = (code, l); code += 1; k += 1
        code <<= 1
    return bits, syms, codes
def dht(i, t): return bytes([i]) + bytes(t[0]) + bytes(t[1])
def pred(psv, a, b, c):
    return [0, a, b, c, a + b - c, a + ((b - c) >> 1), b + ((a - c) >> 1), (a + b) >> 1][psv]
def cat(d): return 0 if d == 0 else 16 if d == 32768 else abs(d).bit_length()
def encode(rng, w, h, n, prec, v, psv=None, pt=0, rrows=0, tables=None, extra=True, precision=None):
    """v: h rows of w * n samples (before the point transform)"""
    psv = psv if psv is not None else rng.randrange(1, 8)
    ntab = tables or rng.randrange(1, min(n, 4) + 1)
    sel = [rng.randrange(ntab) for _ in range(n)]
    ids = rng.sample(range(256), n) if rng.random() < .3 else list(range(1, n + 1))
    ds = []
    for y in range(h):
        first = y == 0 or (rrows and y % rrows == 0)
        row = []
        for i in range(w * n):
            c = i % n
            if i < n: p = 1 << (prec - pt - 1) if first else v[y - 1][i]
            elif first: p = v[y][i - n]
            else: p = pred(psv, v[y][i - n], v[y - 1][i], v[y - 1][i - n])
            d = (v[y][i] - p) & 0xffff
            if d > 32768: d -= 65536
            row.append((c, d))
        ds.append(row)
    need = [set() for _ in range(ntab)]
    for r in ds:
        for c, d in r: need[sel[c]].add(cat(d))
    numbers = rng.sample(range(4), ntab) if rng.random() < .3 else list(range(ntab))
    tabs = [huff(rng, s) for s in need]
    ent = b""; cur = []; marks = 0
    def flush():
        s = "".join(cur); cur.clear(); s += rng.choice("01" if rng.random() < .2 else "1") * (-len(s) % 8)
        b = int(s, 2).to_bytes(len(s) // 8, "big") if s else b""
        return b.replace(b"\xff", b"\xff\0")
    for y, r in enumerate(ds):
        if rrows and y and y % rrows == 0:
            ent += flush() + bytes([0xff, 0xd0 + marks % 8]); marks += 1
        for c, d in r:
            k = cat(d); code, l = tabs[sel[c]][2][k]
            cur.append(format(code, f"0{l}b"))
            if 0 < k < 16: cur.append(format(d if d > 0 else d + (1 << k) - 1, f"0{k}b"))
    ent += flush()
    some = lambda: b"".join(rng.choice([seg(0xfe, b"comment\xff\xc3"), seg(0xe0, b"JFIF\0\1\2\0\0\1\0\1\0\0"), seg(0xe5, b"\xff\xc4\0\x11")]) for _ in range(rng.choice([0, 0, 0, 1]))) if extra else b""
    if rng.random() < .5: d = b"".join(seg(0xc4, dht(numbers[i], t)) for i, t in enumerate(tabs))
    else: d = seg(0xc4, b"".join(dht(numbers[i], t) for i, t in enumerate(tabs)))
    if rng.random() < .1: d = seg(0xc4, dht(numbers[0], huff(rng, {0, 1}))) + d
    dri = seg(0xdd, struct.pack(">H", rrows * w)) if rrows else b""
    sof = seg(0xc3, struct.pack(">BHHB", prec, h, w, n) + b"".join(bytes([i, 0x11, 0]) for i in ids))
    pieces = [sof, d, dri]
    if rng.random() < .5: pieces = [d, sof, dri]
    if rng.random() < .3: pieces = [dri] + pieces[:2]
    sos = seg(0xda, bytes([n]) + b"".join(bytes([ids[c], numbers[sel[c]] << 4]) for c in range(n)) + bytes([psv, 0, pt]))
    return b"\xff\xd8" + b"".join(some() + p for p in pieces) + some() + sos + ent + b"\xff\xd9"
def picture(rng, w, h, n, prec, pt=0):
    m = (1 << (prec - pt)) - 1
    k = rng.random()
    if k < .2: return [[rng.randrange(m + 1) for _ in range(w * n)] for _ in range(h)]
    if k < .35: return [[rng.choice([0, m]) for _ in range(w * n)] for _ in range(h)]
    if k < .45: return [[rng.choice([m >> 1, 0, m])] * (w * n) for _ in range(h)]
    amp = max(1, m >> rng.randrange(2, 12)); base = rng.randrange(m + 1); a, b = rng.randrange(-9, 10), rng.randrange(-9, 10)
    return [[min(m, max(0, base + a * (x // n) + b * y + rng.randrange(-amp, amp + 1))) for x in range(w * n)] for y in range(h)]
def stream(rng, w, h, n, prec=None, psv=None, pt=None, rrows=None, **kw):
    prec = prec or rng.choice([2, 8, 10, 12, 12, 14, 14, 16, 16])
    pt = pt if pt is not None else rng.choice([0, 0, 0, 1, 2]) if prec > 3 else 0
    rrows = rrows if rrows is not None else rng.choice([0, 0, 0, 1, 2, 3])
    return encode(rng, w, h, n, prec, picture(rng, w, h, n, prec, pt), psv, pt, rrows, **kw)
def damage(rng, d):
    r = rng.random()
    if r < .4: return d[:rng.randrange(len(d) + 1)]
    d = bytearray(d)
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(d))
        d[i] = rng.choice([0, 255, rng.randrange(256), d[i] ^ (1 << rng.randrange(8))])
    return bytes(d)
