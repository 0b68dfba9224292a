from .corpus import *
REPEAT = 2
def cases(seed, tier):
    rng = random.Random(seed * 31 + 17); q = tier == "quick"
    files = corpus(seed, 24 if q else 400); rng.shuffle(files); out = []
    for i, (id, b, hint) in enumerate(files):
        id2, b2, hint2 = files[(i + 1) % len(files)]
        modes = ["mem", "io", "path:a.bin", "slow"]
        hs = [{"f": 0, "mode": "mem"}] + [{"f": 0, "mode": rng.choice(modes)} for _ in range(3)] + [{"f": 1, "mode": rng.choice(modes)}, {"f": 1, "mode": "mem"}]
        h = []
        ops = OPS if i % 2 else rng.sample(OPS, 12)
        # each on its own handle
        for o in rng.sample(ops, len(ops) // 2): h += [[0, o], [0, ["close"]]]
        # in any order, again, on one handle after the other
        for k in (1, 2): h += [[k, o] for o in rng.sample(ops, len(ops))] + [[k, rng.choice(ops)] for _ in range(4)]
        # interleaved
        for _ in range(24):
            o = rng.choice(ops)
            h.append([rng.choice([1, 2, 3, 3, 4, 5]), rng.choice([o] * 15 + [["close"]])])
        out.append({"id": f"{id}", "files": [b.hex(), b2.hex()], "hints": [hint, hint2], "handles": hs, "hist": h})
    return out
def shape(c, o):
    return {"id": c["id"], "obs": o.get("obs", []), "fatal": o.get("fatal", "")}
ASSUME = ["answers are compared as digests of everything the query returned", "a query that doesn't return (a panic) is not an answer (C18)"]
