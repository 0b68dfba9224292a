#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the gen/ modules present."""
import json, os, sys, importlib
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    m = os.path.join(H, "gen", p["id"].lower() + ".py")
    if os.path.exists(m):
        g = importlib.import_module("gen." + p["id"].lower())
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "technique": getattr(g, "TECHNIQUE", "TLA+ specification checked with TLC; recorded traces of the real library validated against it"),
                       "level": "model_checking",
                       "level_note": getattr(g, "NOTE", "The specification defines the expected answer for every input; TLC validates every recorded behaviour of the real code against it within the bounds of the generated scenarios. Trusts TLC, the JSON logging of the harness and rustc.")})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
man = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
       "notes": "Technique: TLA+ with TLC. No hooks in /repo: the harness uses the public API with the project's own 'unstable-api' feature."}
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
