#!/usr/bin/env python3
"""Extract the tag name tables of the reference tree into spec/data/tags.json
(run once; the committed file is what the checks use)."""
import re, json, os
src = open("/repo/src/tiff/exif/generated.rs").read()
out = {}
for m in re.finditer(r"pub static ref (\w+)_TAG_NAMES: .*?from\(\[(.*?)\]\);", src, re.S):
    out[m.group(1)] = {str(int(t, 16)): n for t, n in re.findall(r'\(\s*(0x[0-9a-f]+),\s*"([^"]*)"\s*\)', m.group(2))}
json.dump(out, open(os.path.join(os.path.dirname(__file__), "../spec/data/tags.json"), "w"), indent=0, sort_keys=True)
print({k: len(v) for k, v in out.items()})
