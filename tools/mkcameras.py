#!/usr/bin/env python3
"""Reads the tables of cameras (identifiers, models, built-in levels and colour
matrices) of the pinned commit and writes spec/data/cameras.json, the data the
specification decides identity and built-in calibration with."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "bed9af8"
def src(p): return subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{p}"], check=True, stdout=subprocess.PIPE).stdout.decode()
def strip(s): return re.sub(r"/\*.*?\*/", " ", re.sub(r"//[^\n]*", "", s), flags=re.S)
ids = {}
cur = None
for l in src("src/camera_ids.rs").splitlines():
    m = re.match(r"\s*pub mod (\w+)", l)
    if m: cur = m[1].lower(); ids[cur] = {}
    m = re.match(r"\s*pub const (\w+): u16 = (.*?);", l)
    if m:
        v = m[2].strip()
        ids[cur][m[1]] = int(v, 0) if re.match(r"^\d|^0x", v) else v
for mod in ids.values():
    for k in mod:
        seen = 0
        while isinstance(mod[k], str): mod[k] = mod[mod[k].split("::")[-1]]; seen += 1; assert seen < 9
MAC = {"canon": "canon", "nikon": "nikon", "pentax": "pentax", "ricoh": "ricoh", "epson": "epson", "olympus": "olympus", "sony": "sony", "panasonic": "panasonic", "fuji": "fujifilm", "minolta": "minolta", "leica": "leica", "apple": "apple"}
def tid(t):
    t = t.strip()
    m = re.match(r"(\w+)!\(\s*(?:[^,()]+,\s*)?(\w+)\s*\)$", t)
    if m:
        mod = MAC[m[1]]; return [ids["vendor"][mod.upper()], ids[mod][m[2]]]
    m = re.match(r"TypeId\(\s*(?:camera_ids::)?vendor::(\w+),\s*(?:camera_ids::)?(\w+)::(\w+)\s*,?\s*\)$", t)
    return [ids["vendor"][m[1]], ids[m[2]][m[3]]]
def block(text, name):
    i = text.index("ref " + name); i = text.index("[", text.index("=", i)); d = 0; j = i
    while True:
        d += {"[": 1, "]": -1}.get(text[j], 0); j += 1
        if d == 0: return text[i + 1:j - 1]
def table(text, name):
    b = block(text, name); out = []
    for m in re.finditer(r'(\w+)!\(\s*("(?:[^"]*)"|0x[0-9a-fA-F_]+|\d+)\s*,\s*(\w+)\s*,?\s*\)|\(\s*("(?:[^"]*)")\s*,\s*(TypeId\([^)]*\))\s*,?\s*\)', b):
        if m[1]: k, v = m[2], tid(f"{m[1]}!({m[3]})")
        else: k, v = m[4], tid(m[5])
        out.append((k[1:-1] if k[0] == '"' else int(k, 0), v))
    return out
def matrices(text):
    b = block(text, "MATRICES"); out = []
    for m in re.finditer(r"BuiltinMatrix::new\(\s*(\w+!\(\s*\w+\s*\)|TypeId\([^)]*\))\s*,\s*(\w+)\s*,\s*(\w+)\s*,\s*\[([^\]]*)\]", b):
        out.append({"v": tid(m[1])[0], "c": tid(m[1])[1], "black": int(m[2], 0), "white": int(m[3], 0), "m": [int(x) for x in m[4].split(",") if x.strip()]})
    assert len(out) == b.count("BuiltinMatrix::new"), (len(out), b.count("BuiltinMatrix::new"))
    return out
F = {"CANON": "canon.rs", "NEF": "nikon.rs", "PEF": "pentax.rs", "DNG": "dng.rs", "ORF": "olympus.rs", "RW2": "panasonic.rs", "ARW": "sony.rs", "RAF": "fujifilm.rs", "ERF": "epson.rs"}
models = {}
for k, f in F.items():
    d = {}
    for n, v in table(strip(src("src/" + f)), "MAKE_TO_ID_MAP"): d[n] = v
    models[k] = [{"name": n, "v": v[0], "c": v[1]} for n, v in d.items()]
models["MRW"] = [{"name": n, "v": v[0], "c": v[1]} for n, v in dict(table(strip(src("src/minolta.rs")), "MODEL_ID_MAP")).items()]
mids = {}
for k, f, n in (("CANON", "canon.rs", "CANON_MODEL_ID_MAP"), ("PEF", "pentax.rs", "PENTAX_MODEL_ID_MAP"), ("ARW", "sony.rs", "SONY_MODEL_ID_MAP")):
    mids[k] = [{"hi": i >> 16, "lo": i & 65535, "v": v[0], "c": v[1]} for i, v in dict(table(strip(src("src/" + f)), n)).items()]
M = {"CANON": "canon/matrices.rs", "NEF": "nikon/matrices.rs", "PEF": "pentax.rs", "ORF": "olympus/matrices.rs", "RW2": "panasonic.rs", "ARW": "sony.rs", "RAF": "fujifilm/matrices.rs", "ERF": "epson.rs", "MRW": "minolta.rs"}
mats = {}
for k, f in M.items():
    seen = {}
    for m in matrices(strip(src("src/" + f))): seen.setdefault((m["v"], m["c"]), m)      # the first counts
    mats[k] = list(seen.values())
json.dump({"models": models, "modelids": mids, "matrices": mats, "sony": {k: v for k, v in ids["sony"].items() if isinstance(v, int)}, "vendor": {k.lower(): v for k, v in ids["vendor"].items()}}, open(os.path.join(HERE, "spec/data/cameras.json"), "w"), indent=None, separators=(",", ":"))
if "-v" in sys.argv:
    for k in models: print(k, len(models[k]), len(mids.get(k, [])), len(mats.get(k, [])))
    # cross check with the C header
    h = dict()
    for m in re.finditer(r"(OR_TYPEID_\w+)\s*=\s*(\w+)", strip(src("include/libopenraw/cameraids.h"))): h[m[1]] = m[2]
    def val(x): 
        while x in h: x = h[x]
        return int(x, 0)
    for mod, cs in ids.items():
        for k, v in cs.items():
            n = f"OR_TYPEID_{mod.upper()}_{k}"
            alt = n.replace("CANON_EOS_", "CANON_")
            for a in (n, alt):
                if a in h and val(a) != v: print("differs", a, val(a), v)
            if n not in h and alt not in h: print("not in the header", n, v)
