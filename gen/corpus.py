"""Files of all the formats: those of the other properties' scenarios."""
import importlib, random
MODULES = ["c01", "c02", "c03", "c04", "c05", "c06", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c20", "c21", "c22", "c23", "c24", "rich"]
def corpus(seed, per, only=None):
    """[(id, bytes, hint)]: `per` of each module"""
    rng = random.Random(seed * 1009 + 17); out = []
    for m in MODULES:
        if only and m not in only: continue
        try: g = importlib.import_module("gen." + m)
        except ModuleNotFoundError: continue
        if not hasattr(g, "cases"): continue
        cs = [c for c in g.cases(seed, "quick") if "file" in c]
        rng.shuffle(cs)
        for c in cs[:per]: out.append((m + "-" + c["id"], bytes.fromhex(c["file"]) if isinstance(c["file"], str) else bytes(c["file"]), c.get("hint")))
    return out
KEYS = ["Exif.Image.Make", "Exif.Image.Model", "Exif.Image.Orientation", "Exif.Photo.ExposureTime", "Exif.Photo.DateTimeOriginal", "Exif.Image.ImageWidth"]
OPS = [["type"], ["ids"], ["sizes"], ["thumb", 0], ["thumb", 160], ["thumb", 5000], ["raw", True], ["raw", False], ["render", 0, 3], ["render", 1, 3], ["render", 2, 3], ["render", 3, 3],
       ["ifd", "main"], ["ifd", "exif"], ["ifd", "mnote"], ["meta"], ["orient"], ["cal"], ["dump"]] + [["get", k] for k in KEYS]
