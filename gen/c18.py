from .corpus import *
import struct
HINTS = ["", "CR2", "CR3", "CRW", "NEF", "NRW", "PEF", "DNG", "ORF", "RW2", "ARW", "RAF", "MRW", "ERF", "GPR", "SR2", "RWL", "RW", "TIF", "JPEG", "X3F", "3FR", "SRW", "IIQ"]
MAGIC = [b"II*\0\x08\0\0\0", b"MM\0*\0\0\0\x08", b"IIRO\x08\0\0\0", b"IIRS\x08\0\0\0", b"IIU\0\x18\0\0\0", b"MMOR\0\0\0\x08", b"II\x1a\0\0\0HEAPCCDR", b"\0MRM\0\0\0\x40", b"FUJIFILMCCD-RAW 0201", b"\0\0\0\x18ftypcrx \0\0\0\1crx isom", b"FOVb", b"\xff\xd8\xff\xe1\0\x20Exif\0\0II*\0\x08\0\0\0", b"II*\0\x10\0\0\0CR\2\0"]
V16 = [0, 1, 2, 0x7fff, 0x8000, 0xffff, 0xfffe, 255, 256]
V32 = [0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xffff, 0x10000, 0xfffffff0]
def fault(rng, b):
    """one fault"""
    b = bytearray(b); n = len(b); k = rng.random()
    if n < 4: return bytes(b) + b"\0"
    if k < .15: return bytes(b[:rng.randrange(n)])
    e = rng.choice("<>"); p = rng.randrange(n - 3)
    if rng.random() < .5: p &= ~1
    if k < .4: struct.pack_into(e + "H", b, p, rng.choice(V16 + [n & 0xffff]))
    elif k < .65: struct.pack_into(e + "I", b, p, rng.choice(V32 + [n, n - 1, n + 1, p, max(0, n - 4)]))
    elif k < .75: b[p] = rng.choice([0, 1, 0xff, 0x7f, 0x80, rng.randrange(256)])
    elif k < .8: b[p] ^= 1 << rng.randrange(8)
    elif k < .85: q = rng.randrange(n); b[p:p + rng.randrange(1, 40)] = b[q:q + rng.randrange(1, 40)]
    elif k < .9: b[p:p] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4, 12])))
    elif k < .95: del b[p:p + rng.choice([1, 2, 4, 12, 40])]
    else: m = rng.randrange(1, 60); b[p:p + m] = bytes([rng.choice([0, 255])]) * len(b[p:p + m])
    return bytes(b)
def header(rng, b):
    """a fault in what is likely to be a directory entry: type, count, value"""
    b = bytearray(b); n = len(b); le = b[:2] != b"MM"; e = "<" if le else ">"
    spots = [p for p in range(8, n - 12, 2) if struct.unpack_from(e + "H", b, p + 2)[0] in range(1, 14) and b[p:p + 2] != b"\0\0" and struct.unpack_from(e + "I", b, p + 4)[0] < 100000]
    if not spots: return fault(rng, bytes(b))
    p = rng.choice(spots); k = rng.random()
    if k < .25: struct.pack_into(e + "H", b, p + 2, rng.choice(list(range(0, 15)) + [0xffff]))
    elif k < .55: struct.pack_into(e + "I", b, p + 4, rng.choice([0, 0, 1, 1, 2, 3, 5, 0xffffffff, 0x40000000, 0x10000, 7]))
    elif k < .9: struct.pack_into(e + "I", b, p + 8, rng.choice(V32 + [n, n - 1, n - 2, p, 8, 100, 0x4000]))
    else: struct.pack_into(e + "H", b, p, rng.choice([254, 256, 257, 258, 259, 262, 273, 277, 279, 322, 323, 324, 325, 330, 33422, 34665, 37500, 50706, 50714, 50717, 50719, 50720, 50728, 50829, 46, 0x111, 0x201, 0x202]))
    return bytes(b)
SZ = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8, 13: 4}
def entries(b):
    """where the directory entries are: (position, byte order, origin)"""
    out = []; todo = []; seen = set()
    raf = [struct.unpack_from(">I", b, 100)[0]] if b[:8] == b"FUJIFILM" and len(b) > 104 else []
    for at in [0] + [i for i in raf if i < len(b)] + [i for i in (b.find(b"Exif\0\0"),) if i >= 0] + [i for i in (b.find(b"\0TTW"),) if i >= 0]:
        o = at if at == 0 or at in raf else at + (6 if b[at:at + 4] == b"Exif" else 8)
        if b[o:o + 2] in (b"II", b"MM") and len(b) > o + 8:
            e = "<" if b[o:o + 1] == b"I" else ">"; todo.append((o + struct.unpack_from(e + "I", b, o + 4)[0], e, o))
    while todo and len(out) < 600:
        p, e, o = todo.pop()
        if (p, o) in seen or p + 2 > len(b) or p < 0: continue
        seen.add((p, o)); n = struct.unpack_from(e + "H", b, p)[0]
        if n > 200 or n == 0: continue
        for i in range(n):
            q = p + 2 + 12 * i
            if q + 12 > len(b): break
            tag, ty, c, v = struct.unpack_from(e + "HHII", b, q)
            out.append((q, e, o))
            if tag in (34665, 330, 34853, 0xc634, 0xf000) or (ty in (4, 13) and c == 1 and tag in (0x2010, 0x2020, 0x2030, 0x2031, 0x2040, 0x2050)):
                if c == 1: todo.append((o + v, e, o))
                elif c < 10:
                    for k in range(c):
                        if o + v + 4 * k + 4 <= len(b): todo.append((o + struct.unpack_from(e + "I", b, o + v + 4 * k)[0], e, o))
            if tag == 37500 and SZ.get(ty, 1) * c > 4:
                m = b[o + v:o + v + 30]
                for sig, skip, org in ((b"Nikon\0", 10, 10), (b"OLYMPUS\0", 12, 0), (b"OLYMP\0", 8, None), (b"OM SYSTEM\0", 16, 0), (b"Panasonic\0", 12, None), (b"AOC\0", 6, None), (b"PENTAX \0", 10, 0),
                                       (b"SONY", 12, None), (b"FUJIFILM", 12, 0), (b"LEICA\0\0\0", 8, 8), (b"LEICA", 8, None), (b"EPSON\0", 8, None), (b"", 0, None)):
                    if m.startswith(sig):
                        z = o + v; e2 = e
                        for k in (0, 10, 12, 8):
                            if sig and m[k:k + 2] in (b"II", b"MM"): e2 = "<" if m[k:k + 1] == b"I" else ">"
                        if sig == b"Nikon\0" and m[10:12] in (b"II", b"MM"): todo.append((z + 10 + struct.unpack_from(e2 + "I", b, z + 14)[0], e2, z + 10))
                        else: todo.append((z + skip, e2, o if org is None else z + org))
                        break
    return out
def entryfault(rng, b, es):
    """a fault in a directory entry or in its value"""
    q, e, o = rng.choice(es); b = bytearray(b); tag, ty, c, v = struct.unpack_from(e + "HHII", b, q); n = len(b); k = rng.random(); size = SZ.get(ty, 1) * c
    if k < .4: struct.pack_into(e + "I", b, q + 4, rng.choice([0, 1, 2, 3, 4, max(0, c - 1), c // 2, c // 3, min(c, rng.randrange(1, 40)), (c + 1) & 0xffffffff, 0x7fffffff, 0xffffffff, 0x40000001]))
    elif k < .5: struct.pack_into(e + "H", b, q + 2, rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 0, 0xffff]))
    elif k < .75:
        if size > 4: struct.pack_into(e + "I", b, q + 8, rng.choice([n - o, n - o - 1, n - o - 2, n - o - 4, max(0, n - o - size + 1), 0, (v + 1), 0xffffffff, 0x7fffffff, rng.randrange(n)]) & 0xffffffff)
        elif SZ.get(ty) == 2: struct.pack_into(e + "H", b, q + 8, rng.choice(V16 + [rng.randrange(40), 17, 31, 32, 33, 63, 64, 1000]))
        else: struct.pack_into(e + "I", b, q + 8, rng.choice(V32 + [n, rng.randrange(70), rng.randrange(n), 0x4000, 30000]))
    elif k < .9 and size > 4 and o + v + 4 < n:
        p = o + v + rng.randrange(min(size, n - o - v - 3)); w = rng.choice([1, 2, 4])
        if w == 1: b[p] = rng.choice([0, 1, 255, 128, 127, rng.randrange(256)])
        elif w == 2: struct.pack_into(e + "H", b, p, rng.choice(V16))
        else: struct.pack_into(e + "I", b, p, rng.choice(V32 + [n, rng.randrange(n)]))
    else: del b[q:q + 12]; b[q:q] = bytes(12)
    return bytes(b)
def raffault(rng, b):
    """a fault in the header of a RAF file or in its description of the image"""
    b = bytearray(b); n = len(b); spots = [(p, 4) for p in range(84, 108, 4)]
    m = struct.unpack_from(">I", b, 92)[0] if n > 108 else n
    if m + 4 < n:
        spots.append((m, 4)); q = m + 4
        for _ in range(min(40, struct.unpack_from(">I", b, m)[0])):
            if q + 4 > n: break
            z = struct.unpack_from(">H", b, q + 2)[0]
            spots += [(q, 2), (q + 2, 2)] + [(q + 4 + k, 2) for k in range(0, z, 2)] + [(q + 4 + k, 4) for k in range(0, z, 4)]
            q += 4 + z
    p, w = rng.choice(spots)
    if p + w > n: return bytes(b)
    if w == 4: struct.pack_into(">I", b, p, rng.choice(V32 + [n, n - 1, rng.randrange(n), 0x01000000, 0x00080000]))
    else: struct.pack_into(">H", b, p, rng.choice(V16 + [rng.randrange(40), 0x100, 0x111, 0x115, 0x130, 0x131, 0x2ff0, 0xc000, 36, 4, 8]))
    return bytes(b)
def cases(seed, tier):
    rng = random.Random(seed * 131 + 18); q = tier == "quick"; out = []
    files = corpus(seed, 100 if q else 700)
    def add(id, b, hint):
        ops = [["hash", o] for o in OPS]
        if rng.random() < .5: rng.shuffle(ops)
        out.append({"id": id, "file": b.hex(), "hint": hint, "mode": rng.choice(["mem", "io"]), "ops": ops, "log": rng.random() < .3})
    for i, (id, b, hint) in enumerate(files):
        for j in range(3 if q else 12):
            f = b
            for _ in range(rng.choice([1, 1, 2, 4])): f = rng.choice([fault, header])(rng, f)
            add(f"{id}-f{j}", f, hint)
        es = entries(b)
        for j in range((8 if q else 40) if es else 0):
            f = b
            for _ in range(rng.choice([1, 1, 1, 2])): f = entryfault(rng, f, es)
            add(f"{id}-e{j}", f, hint)
        if b[:8] == b"FUJIFILM":
            for j in range(6 if q else 40): add(f"{id}-r{j}", raffault(rng, b), hint)
        if i % 4 == 0: add(f"{id}-as", b, rng.choice(HINTS))
    for i in range(150 if q else 3000):
        m = rng.choice(MAGIC); b = m + bytes(rng.choice([0, 0, 1, 255, rng.randrange(256)]) for _ in range(rng.randrange(0, 300)))
        add(f"random-{i}", b, rng.choice(HINTS))
    return out
def shape(c, o):
    return {"id": c["id"], "fatal": o.get("fatal", ""), "open": o.get("open", {"st": "none"}), "ops": c["ops"], "peak": o.get("peak", 0), "size": len(c["file"]) // 2,
            "obs": [{"st": x.get("inner", x["st"])} for x in o.get("obs", [])]}
TIMEOUT = 10
ASSUME = ["a query that takes more than 10 s is a hang", "memory: 64 MB and 4096 bytes for each byte of the file"]
