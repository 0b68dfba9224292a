from .corpus import *
from .rich import rich
TLA_GEN = ["GenC19"]
GEN_CFG = "INVARIANT Sound"
TYPENUM = dict(CR2=1, CRW=2, NEF=3, MRW=4, ARW=5, DNG=6, ORF=7, PEF=8, ERF=9, TIF=10, NRW=11, RW2=12, RAF=13, CR3=14, GPR=15, SR2=16, RW=17, JPEG=100)
TAGS = [254, 256, 271, 272, 306, 330, 33421, 33434, 34665, 36867, 37500, 50706, 1, 2, 3, 17, 0, 65535, 40000]
IFDS = [("main", 1), ("exif", 2), ("mnote", 3), ("raw", 4), ("subifd", 5), ("gps", 6), ("other", 0)]
_life = {}
def lifefile(seed):
    if seed not in _life: _life[seed] = rich(random.Random(seed))
    return _life[seed]
def expand(c, seed):
    return dict(c, files=[lifefile(seed).hex()])
def client(rng, files):
    """a random client: it keeps the contract"""
    ops = [["nulls"]] if rng.random() < .1 else []
    slots = {}; nxt = [1]
    def new():
        s = nxt[0]; nxt[0] += 1; return s
    def of(kind):
        l = [s for s, k in slots.items() if k[0] == kind]
        return rng.choice(l) if l else None
    for step in range(rng.randint(12, 50)):
        f = of("file")
        r = rng.random()
        if f is None or r < .06:
            s = new(); k = rng.choice([0, 0, 0, 1]); hint = rng.choice(["", "", "", files[k][2] or "", files[k][2] or "", files[k][2] or "", rng.choice(list(TYPENUM))])
            via = rng.choice(["mem", "mem", "mem", "path", "path", "null", "nullmem"] if rng.random() < .3 else ["mem", "path"])
            if via == "path" and rng.random() < .1: k = -1
            ops.append(["new", s, k, via, TYPENUM.get(hint, 0), hint if hint in TYPENUM else ""])
            slots[s] = ("file", 0); continue
        if rng.random() < .04: f = 0
        op = rng.choice(["file", "cm", "thumb", "raw", "render", "meta", "iter", "iter", "ifd", "xthumb", "xraw", "use", "use", "use", "use", "use", "reread", "reread", "release", "registry"])
        if op == "file": ops.append(["file", f])
        elif op == "cm": ops.append(["cm", f, rng.randint(1, 2), rng.choice([-1, 0, 1, 8, 9, 9, 10, 12, 16, 40]), rng.random() < .1])
        elif op == "thumb":
            s = new(); ops.append(["thumb", f, s, rng.choice([0, 1, 64, 160, 1000, 6000, 160]), rng.random() < .8]); slots[s] = ("thumb", f)
        elif op == "raw":
            s = new(); ops.append(["raw", f, s, rng.choice([0, 1]), rng.random() < .8]); slots[s] = ("raw", f)
        elif op == "render":
            st, cs = rng.randint(0, 3), rng.choice([0, 1, 2, 3, 3, 7, 15])
            s = new(); ops.append(["render", f, s, st * 16 + cs, rng.random() < .8, st, cs if cs <= 3 else 3]); slots[s] = ("bitmap", f)
        elif op == "meta":
            s = new(); ops.append(["meta", f, s, rng.choice(KEYS + ["", "Exif.Image.Nothing", None, "Exif.Photo.MakerNote", "Exif.Photo.ISOSpeedRatings", "Exif.Image.BitsPerSample"])]); slots[s] = ("value", f)
        elif op == "iter":
            s = new(); ops.append(["iter", f, s]); slots[s] = ("iter", f)
            for _ in range(rng.choice([0, 1, 2, 6, 30])):
                ops.append(["next", s])
                if rng.random() < .6: ops.append(["entry", s, rng.random() < .5])
        elif op == "ifd":
            s = new(); nm, k = rng.choice(IFDS); tags = rng.sample(TAGS, 8)
            ops.append(["ifd", f, s, k, nm, tags]); slots[s] = ("ifd", f, tags); ops.append(["dinfo", s, tags])
        elif op in ("xthumb", "xraw"):
            s = new(); ops.append([op, rng.choice([0, 0, 0, 1, -1]), s, rng.choice([0, 160, 160, 1000]) if op == "xthumb" else rng.choice([0, 1]), rng.random() < .05])
            slots[s] = ("thumb" if op == "xthumb" else "raw", 0)
        elif op == "registry": ops.append(["registry", rng.choice(["image/jpeg", "", "image/x-foo"])])
        else:
            l = list(slots)
            if not l: continue
            s = rng.choice(l); kind = slots[s][0]
            if op == "release":
                if kind == "ifd": continue
                ops.append(["release", s, kind]); del slots[s]
                if kind == "file":
                    for x in [x for x in slots if slots[x][0] == "ifd" and slots[x][1] == s]: del slots[x]
            elif op == "use":
                if kind == "thumb": ops.append(["tinfo", s])
                elif kind == "raw": ops.append(["rinfo", s])
                elif kind == "bitmap": ops.append(["binfo", s])
                elif kind == "value": ops.append(["vinfo", s, rng.random() < .5])
                elif kind == "iter": ops.append(["next", s]); ops.append(["entry", s, rng.random() < .5])
                elif kind == "ifd": ops.append(["dinfo", s, slots[s][2]])
                elif kind == "file": ops.append(["file", s])
            elif op == "reread":
                w = dict(file=["sizes"], thumb=["data"], raw=["data"], bitmap=["data"], value=["string", "text"], iter=["key", "text", "string"], ifd=["id"])[kind]
                ops.append(["reread", s, rng.choice(w)])
    l = [s for s in slots if slots[s][0] != "ifd"]; rng.shuffle(l)
    for s in l: ops.append(["release", s, slots[s][0]])
    return ops
REPEAT = 4
def cases(seed, tier):
    rng = random.Random(seed * 77 + 19); q = tier == "quick"
    files = corpus(seed, 16 if q else 150); rng.shuffle(files); out = []
    for i, f in enumerate(files):
        g = files[(i + 1) % len(files)]
        if rng.random() < .5: f = ("rich-%d" % i, rich(rng, *rng.choice([("NIKON CORPORATION", "NIKON D3"), ("Canon", "Canon EOS 5D"), ("", "x"), ("Leica Camera AG", "M8 Digital Camera")])), rng.choice([None, "DNG"]))
        fs = [f, g]
        out.append({"id": f[0], "files": [f[1].hex(), g[1].hex()], "capi": client(rng, fs)})
    out.append({"id": "nulls", "files": [], "capi": [["nulls"], ["registry", "image/x-canon"]]})
    return out
def shape(c, o):
    # reread of an object that wasn't created is dropped: the slot is empty
    obs = o.get("obs") or {"steps": [], "leak": 0}
    live, capi, steps = {}, [], []
    CREATE = dict(thumb=("thumb", 2), raw=("raw", 2), render=("bitmap", 2), meta=("value", 2), iter=("iter", 2), ifd=("ifd", 2), new=("file", 1), xthumb=("thumb", 2), xraw=("raw", 2))
    for op, r in zip(c["capi"], obs["steps"]):
        f = op[0]
        if f == "reread" and op[1] not in live: continue
        if f in CREATE and not r["null"]: live[op[CREATE[f][1]]] = (CREATE[f][0], op[1])
        if f == "release":
            live.pop(op[1], None)
            for x in [x for x in live if live[x] == ("ifd", op[1])]: del live[x]
        if f == "ifd" : op = op[:5]
        if f == "meta": op = op[:3]
        capi.append(op); steps.append(r)
    return {"id": c["id"], "capi": capi, "obs": steps, "leak": obs["leak"], "fatal": o.get("fatal", "")}
ASSUME = ["a client keeps the documented contract: live objects, documented lifetimes, hints of the enumeration", "the native API's answers are those the other properties decide"]
