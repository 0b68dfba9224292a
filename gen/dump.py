"""Reads the text of a dump into records."""
import re
IFD = re.compile(r'^( *)<IFD type=(\w+) id="([^"]*)" (\d+) entries next=@(\d+)>$')
ENT = re.compile(r'^( *)<0x([0-9a-f]{4})=( *\d+)> (.{30,}?) \[ *(-?\d+)=(\w+) +(\d+) *\] = (.*)$')
CON = re.compile(r'^( *)<TIFF Container endian=(\w+) (\d+) directories @(\d+)>$')
JPG = re.compile(r'^( *)<JPEG Container @(\d+)>$')
def s32(v):
    v = int(v)
    return v - 2**32 if v >= 2**31 else v
def parse(lines):
    """[(kind, ...)]: directories with their entries, containers; other lines are kept"""
    out = []; cur = None
    for l in lines:
        m = IFD.match(l)
        if m:
            cur = {"x": "ifd", "d": len(m[1]) // 2, "ty": m[2], "id": m[3], "n": int(m[4]), "next": s32(m[5]), "es": []}
            out.append(cur); continue
        m = ENT.match(l)
        if m and cur is not None and int(m[2], 16) == int(m[3]) and m[1] == "  " * (cur["d"] + 1):
            cur["es"].append({"tag": int(m[3]), "name": m[4].strip(), "type": int(m[5]), "tn": m[6], "count": s32(m[7]), "val": m[8]}); continue
        if l.strip() == "</IFD>":
            if cur is None or len(l) - len(l.lstrip()) != cur["d"] * 2: out.append({"x": "line", "t": l})
            cur = None; continue
        m = CON.match(l)
        if m:
            out.append({"x": "tiff", "d": len(m[1]) // 2, "e": m[2], "n": int(m[3]), "off": int(m[4])}); continue
        m = JPG.match(l)
        if m:
            out.append({"x": "jpeg", "d": len(m[1]) // 2, "off": int(m[2])}); continue
        out.append({"x": "line", "t": l})
    return out

HEAP = re.compile(r'^( *)<HEAP pos=(\d+) len=(\d+)>$')
REC = re.compile(r"^( *)<Record '\w+' = 0x([0-9a-f]+), type: (\w+)>$")
def parse_ciff(lines):
    """the header, the heaps and the records of a CIFF dump, flat"""
    out = []; cur = None; head = None; stack = []
    for l in lines:
        t = l.strip(); d = (len(l) - len(l.lstrip())) // 2
        m = HEAP.match(l)
        if m:
            cur = None; stack.append(h := {"x": "heap", "d": d, "pos": s32(m[2]), "len": s32(m[3]), "n": -1}); out.append(h); continue
        m = REC.match(l)
        if m:
            cur = {"x": "rec", "d": d, "code": int(m[2], 16), "ty": m[3], "in": False, "pos": -1, "n": -1, "ss": [], "has": False, "v": [], "count": -1}
            out.append(cur); continue
        if t == "<Header>": head = {"x": "ciff", "d": d, "e": "", "len": -1, "ty": "", "sub": "", "hi": -1, "lo": -1}; out.append(head); continue
        if t == "</Header>": head = None; continue
        if head is not None:
            k, _, v = t.partition(": ")
            if k == "Endian": head["e"] = v
            elif k == "Len": head["len"] = s32(v)
            elif k == "Type": head["ty"] = v[1:-1]
            elif k == "Subtype": head["sub"] = v[1:-1]
            elif k == "Version": head["hi"], head["lo"] = (int(x, 16) for x in v.split())
            continue
        if t == "</HEAP": stack = stack[:-1]; cur = None; continue
        if t == "</Record>": cur = None; continue
        if cur is None:
            if t.startswith("Num records: ") and stack: stack[-1]["n"] = int(t[13:])
            else: out.append({"x": "line", "t": l})
            continue
        m = re.match(r"^In heap at (\d+), (\d+) bytes$", t)
        if m and d == cur["d"] + 1 and cur["pos"] == -1: cur["pos"], cur["n"] = s32(m[1]), s32(m[2]); continue
        if t == "In record" and d == cur["d"] + 1: cur["in"] = True; continue
        if t.startswith("Count: "): cur["count"] = s32(t[7:]); continue
        s = l[2 * (cur["d"] + 1):]
        if cur["ty"] == "Ascii" and s[:1] == "'" and s[-1:] == "'" and len(s) > 1: cur["ss"].append(s[1:-1]); continue
        if t[:1] == "[" and t[-1:] == "]": cur["has"] = True; cur["v"] = [s32(x) for x in t[1:-1].split(", ")] if len(t) > 2 else []; continue
        out.append({"x": "line", "t": l})
    return out
