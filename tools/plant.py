#!/usr/bin/env python3
"""plant.py BATCH.py [NAME...]: plants the bugs of a batch, one after the other,
in /repo (undone straight afterwards) and keeps those that count in
/verif/seeded.  BATCH.py defines BUGS: a list of dicts with id, property, edits
[(file, old, new)], needs, breaks and optionally case (hex), args, check (list
of properties to run).  Without a case, the case is the one a check reports."""
import json, os, re, runpy, shutil, subprocess, sys
V = "/verif"; R = "/repo"; P = V + "/tools/plant"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def args_of(case):
    out = [case.get("hint") or "-"]
    for op in case["ops"]:
        a = op[0]
        if a == "raw": out.append("raw=skip" if op[1] else "raw")
        elif a in ("id", "ids", "type"): out.append("type")
        elif a in ("hash",): pass
        elif len(op) > 1 and a != "dump": out.append(a + "=" + ",".join(map(str, op[1:])))
        else: out.append(a)
    return " ".join(dict.fromkeys(out))
def clean():
    sh(f"git -C {R} checkout -- .")
def probe(to):
    r = sh(f'cd {R} && rustc --edition 2021 -A warnings -o {to} {P}/probe.rs -L dependency=target/debug/deps --extern libopenraw="$(ls -t target/debug/deps/liblibopenraw-*.rlib | head -1)"', env=ENV)
    assert r.returncode == 0, r.stdout
def ask(bin, d):
    r = subprocess.run(f"ulimit -v 8000000; timeout 60 {bin} {d}/case.hex $(cat {d}/args.txt)", shell=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return r.returncode, r.stdout
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]; only = sys.argv[2:]
    assert not sh(f"git -C {R} status --short").stdout, "repo not clean"
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    cp = "/tmp/probe_clean"
    head = sh(f"git -C {R} rev-parse HEAD").stdout.strip()
    if not os.path.exists(cp) or open(cp + ".head").read() != head:
        sh("bash /opt/vp/build.sh"); probe(cp); open(cp + ".head", "w").write(head)
    for b in bugs:
        if only and b["id"] not in only: continue
        d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
        res = {}
        try:
            for f, old, new in b["edits"]:
                s = open(f"{R}/{f}").read()
                assert s.count(old) == 1, f"{f}: {s.count(old)} x {old[:60]!r}"
                open(f"{R}/{f}", "w").write(s.replace(old, new))
            diff = sh(f"git -C {R} diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            r = sh("bash /opt/vp/build.sh")
            if r.returncode: print(b["id"], "DOES NOT BUILD", r.stdout[-1500:]); continue
            sh("bash /opt/vp/test.sh /tmp/o.json")
            miss = base - set(json.load(open("/tmp/o.json"))["passed"])
            if miss: print(b["id"], "TESTS FAIL", miss); continue
            bp = "/tmp/probe_bug"; probe(bp)
            case = None; own = b.get("owndemo"); rc2 = None
            if own:
                for f, t in own.items(): open(f"{d}/{f}", "w").write(t)
                rc2 = sh(f"cd {R} && bash {d}/demo.sh").returncode
            for pid in b.get("check", [b["property"]]):
                r = sh(f"cd {V} && timeout 900 python3 check.py {pid}")
                res[pid] = r.returncode
                if r.returncode == 1 and os.path.isdir(f"{V}/work/{pid}/replay") and not any("file" in json.load(open(f"{V}/work/{pid}/replay/{f}"))["case"] for f in os.listdir(f"{V}/work/{pid}/replay")):
                    r = sh(f"cd {V} && CASES=file timeout 900 python3 check.py {pid}")
                m = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
                if m and case is None:
                    rp = f"{V}/work/{pid}/replay"
                    cs = [json.load(open(f"{rp}/{f}"))["case"] for f in sorted(os.listdir(rp))]
                    cs = [c for c in cs if "file" in c]
                    case = min(cs, key=lambda c: len(c["file"])) if cs else None
                if r.returncode not in (0, 1): print(r.stdout[-800:])
        except AssertionError as e:
            print(b["id"], "EDIT", e); continue
        finally: clean()
        if "case" in b:
            open(d + "/case.hex", "w").write(b["case"] + "\n"); open(d + "/args.txt", "w").write(b["args"] + "\n")
        elif case and "file" in case:
            h = case["file"] if isinstance(case["file"], str) else bytes(case["file"]).hex()
            open(d + "/case.hex", "w").write(h + "\n"); open(d + "/args.txt", "w").write(args_of(case) + "\n")
        ok = None
        if own:
            sh("bash /opt/vp/build.sh"); r = sh(f"cd {R} && bash {d}/demo.sh")
            ok = rc2 != 0 and r.returncode == 0
            if not ok: print("bug", rc2, "clean", r.returncode, r.stdout[-500:])
        if os.path.exists(d + "/case.hex") and not b.get("owndemo"):
            for f in ("probe.rs", "demo.sh"): shutil.copy(f"{P}/{f}", d)
            rc, exp = ask(cp, d); rc2, got = ask(bp, d)
            open(d + "/expected.txt", "wb").write(exp)
            ok = rc == 0 and (rc2 != 0 or got != exp)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(b["id"], "checks", res, "demo", ok, flush=True)
    sh("bash /opt/vp/build.sh")
main()
