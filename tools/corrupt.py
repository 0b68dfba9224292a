#!/usr/bin/env python3
"""corrupt.py ID [N]: shows that the binding is tight.  Takes the trace kept by
`check.py ID --keep`, alters one logged answer in each of N cases, and reports
which alterations TLC accepts (they should be explained: fields that the
property leaves free)."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check, importlib, re
pid = sys.argv[1]; N = int(sys.argv[2]) if len(sys.argv) > 2 else 200
gen = importlib.import_module("gen." + pid.lower())
work = os.path.join(check.WORK, pid)
traces = [json.loads(l) for l in open(os.path.join(work, "trace0-0.ndjson"))]
rng = random.Random(5)
def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items(): yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x): yield from leaves(v, path + (i,))
    else: yield path
picked = []; info = {}
for j in range(N):
    t = json.loads(json.dumps(rng.choice(traces)))
    ls = list(leaves(t.get("obs", []), ("obs",))) + [p for p in leaves(t.get("open", {}), ("open",))]
    if not ls: continue
    p = rng.choice(ls)
    x = t
    for s in p[:-1]: x = x[s]
    old = x[p[-1]]
    x[p[-1]] = (not old) if isinstance(old, bool) else old + rng.choice([1, -1]) if isinstance(old, int) else old + "x" if isinstance(old, str) else old
    if isinstance(old, int) and not isinstance(old, bool) and abs(x[p[-1]]) >= 2**31: continue
    t["id"] = f"k{j}"; info[t["id"]] = (p, old, x[p[-1]]); picked.append(t)
acc = []
pend = picked; 
while pend:
    rc, out, st, d, m = check.validate(getattr(gen, "MODULE", pid), pend, work, tag="c")
    acc += d
    seen = set(d) | {x["id"] for x in m}
    rest = [t for t in pend if t["id"] not in seen]
    if rc == 0 or not rest: break
    mm = re.findall(r"\bn = (\d+)", out)
    bad = pend[int(mm[-1]) - 1]["id"]
    pend = [t for t in rest if t["id"] != bad]
acc = set(acc)
print(f"{len(picked)} alterations, {len(acc)} accepted")
from collections import Counter
for k, v in Counter(tuple(s for s in info[a][0] if isinstance(s, str)) + (info[a][1] if isinstance(info[a][1], str) and len(info[a][1]) < 12 else "",) for a in acc).most_common(): print("  ", v, k)
