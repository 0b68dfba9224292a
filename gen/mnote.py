"""Maker notes: signatures, where the directory starts, where offsets count from."""
# name: (header, distance of the directory, relative origin or None, id)
KINDS = {
    "nikon2": (b"Nikon\0\1\0", 8, 8, "Exif.Nikon2"), "nikon3": (b"Nikon\0\2\x10\0\0", 18, 10, "Exif.Nikon"),
    "olympus2": (b"OLYMPUS\0II\3\0", 12, 0, "Exif.Olympus2"), "om": (b"OM SYSTEM\0\0\0II\4\0", 16, 0, "Exif.Olympus2"),
    "olympus": (b"OLYMP\0\1\0", 8, None, "Exif.Olympus"), "epson": (b"EPSON\0\1\0", 8, None, "Exif.Epson"),
    "aoc": (b"AOC\0MM", 6, None, "Exif.Pentax"), "pentax": (b"PENTAX \0II", 10, 0, "Exif.Pentax"),
    "panasonic": (b"Panasonic\0\0\0", 12, None, "Exif.Panasonic"), "ricoh": (b"Ricoh\0\0\0", 8, None, "Exif.Ricoh"),
    "leicaag": (b"LEICA CAMERA AG\0II", 18, None, "Exif.Leica5"), "leica2": (b"LEICA\0\0\0", 8, 0, "Exif.Leica2"),
    "leica5a": (b"LEICA\0\x08\0", 8, None, "Exif.Leica5"), "leica5b": (b"LEICA\0\x09\0", 8, None, "Exif.Leica5"),
    "leica5c": (b"LEICA\0\x0a\0", 8, None, "Exif.Leica5"),
    "leicax1": (b"LEICA\0\x01\0", 8, 0, "Leica5"), "leicax4": (b"LEICA\0\x04\0", 8, 0, "Leica5"), "leicax5": (b"LEICA\0\x05\0", 8, 0, "Leica5"),
    "leicax6": (b"LEICA\0\x06\0", 8, 0, "Leica5"), "leicax7": (b"LEICA\0\x07\0", 8, 0, "Leica5"),
    "leicax10": (b"LEICA\0\x10\0", 8, 0, "Leica5"), "leicax1a": (b"LEICA\0\x1a\0", 8, 0, "Leica5"),
    "leica6": (b"LEICA\0\x02\xff", 8, None, "Exif.Leica6"), "leica4": (b"LEICA0\x03\0", 8, 0, "Exif.Leica4"),
    "leica9": (b"LEICA\0\x02\0", 8, None, "Exif.Leica9"), "yi": (b"YI     \0\0\0\0\0", 12, 0, "Exif.Xiaoyi"),
    "apple": (b"Apple iOS\0\0\1MM", 14, 0, "Exif.Apple"), "fuji": (b"FUJIFILM\x0c\0\0\0", 12, 0, "Exif.Fujifilm"),
    "sigma": (b"SIGMA\0\0\0\1\0", 10, None, "Exif.Sigma"), "none": (b"", 0, None, ""),
}
def note(t, kind, le=None, sig=None):
    """a group with the header and the directory; returns (group, dir)"""
    head, dist, rel, _ = KINDS[kind]
    le = (True if kind == "fuji" else t.le) if le is None else le
    if kind == "nikon3": head = b"Nikon\0\2\x10\0\0" + (b"II*\0\x08\0\0\0" if le else b"MM\0*\0\0\0\x08")
    if sig: head = sig
    g = t.group(le, pad=20)
    g.blob(head.ljust(dist, b"\0")[:dist])
    d = g.dir(base=(g + rel) if rel is not None else 0)
    return g, d
