"""JPEG streams, as far as the frame header (that is all previews need)."""
import struct
def seg(m, data): return bytes([0xff, m]) + struct.pack(">H", len(data) + 2) + data
def jpeg(rng, w, h, exif=None, size=None, sof=None):
    out = b"\xff\xd8"
    if rng.random() < .3: out += rng.choice([seg(0xe0, b"JFIF\0\1\2\0\0\1\0\1\0\0"), seg(0xfe, b"comment"), seg(0xe1, b"http://ns.adobe.com/xap/1.0/\0<x/>")])
    if exif is not None: out += seg(0xe1, b"Exif\0\0" + exif)
    for _ in range(rng.choice([0, 0, 1, 2])):
        out += rng.choice([seg(0xfe, b"comment\xff"), seg(0xe0, b"JFIF\0\1\2\0\0\1\0\1\0\0"), seg(0xe5, b"\xff\xc0\0\x11\x08\0\1\0\1"), seg(0xdb, b"\0" + bytes([1] * 64)), seg(0xdd, b"\0\0")])
    nc = rng.choice([1, 3])
    f = struct.pack(">BHHB", 8, h, w, nc) + b"".join(bytes([i + 1, 0x11, 0]) for i in range(nc))
    out += seg(sof or rng.choice([0xc0, 0xc1, 0xc2]), f)
    tail = bytes(rng.randrange(255) for _ in range(rng.randrange(0, 30)))
    out += tail + b"\xff\xd9"
    return out

def broken(rng, data):
    """not a JPEG stream: no SOI, or it ends at once"""
    return rng.choice([b"\xff\xd9" + data[2:], b"x" + data, b"\xff\xd8\xff\xd9" + data[4:], b"\0\0" + data[2:]])
