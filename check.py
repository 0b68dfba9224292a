#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep]

Decides one property: builds the harness against /repo's working tree, gets the
scenarios (enumerated by a TLA+ generator module and/or generated from the
seed), replays them into the real library, and has TLC validate the recorded
trace against the property's specification module.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed."""
import importlib, json, os, re, shutil, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import runtlc

HARNESS = os.path.join(HERE, "harness")
WORK = os.path.join(HERE, "work")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None); ENV.pop("RUSTFLAGS", None)

class Broken(Exception):
    pass

def build():
    p = subprocess.run(["cargo", "build", "--offline"], cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Broken("harness build failed:\n" + p.stdout.decode()[-4000:])
    return os.path.join(HARNESS, "target", "debug", "lorverif")

def one_batch(exe, path, out, timeout, work):
    skip = 0
    total = sum(1 for _ in open(path))
    e = dict(ENV, LOR_SCRATCH=work)
    open(out, "w").close()
    while skip < total:
        p = subprocess.run(["prlimit", "--as=12884901888", exe, path, out, "--timeout", str(timeout), "--skip", str(skip)], env=e,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        done = sum(1 for _ in open(out))
        if p.returncode == 0:
            break
        if p.returncode != 75:      # the process died in case number `done`
            with open(path) as f:
                for k, l in enumerate(f):
                    if k == done:
                        cid = json.loads(l)["id"]; break
            with open(out, "a") as f:
                f.write(json.dumps({"id": cid, "fatal": "abort %d" % p.returncode}) + "\n")
            done += 1
        skip = done

def run_harness(exe, cases, work, timeout=20, jobs=8):
    """replay cases, in parallel batches; returns observations by id"""
    import concurrent.futures as cf
    batches = [cases[k::jobs] for k in range(jobs) if cases[k::jobs]]
    def go(k):
        path = os.path.join(work, "cases%d.ndjson" % k); out = os.path.join(work, "obs%d.ndjson" % k)
        with open(path, "w") as f:
            for c in batches[k]:
                f.write(json.dumps(c) + "\n")
        one_batch(exe, path, out, timeout, work)
        return [json.loads(l) for l in open(out)]
    obs = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(go, range(len(batches))):
            for o in r: obs[o["id"]] = o
    return obs

def merge(case, o):
    m = {k: v for k, v in case.items() if not k.startswith("_")}
    if isinstance(m.get("file"), str): m["file"] = list(bytes.fromhex(m["file"]))
    if "fatal" in o:
        m["open"] = {"st": "fatal", "what": o["fatal"]}; m["obs"] = []
    else:
        if "open" in o: m["open"] = o["open"]
        m["obs"] = o.get("obs", [])
    return m

def validate(module, traces, work, tag="", timeout=800):
    """TLC decides; returns (done ids, mismatches, states)"""
    tf = os.path.join(work, f"trace{tag}.ndjson")
    with open(tf, "w") as f:
        for t in traces: f.write(json.dumps(t) + "\n")
    rc, out, st = runtlc.tlc(module, work, env={"TRACE": tf}, timeout=timeout)
    done = [d["id"] for d in runtlc.printed(out, "DONE")]
    mis = runtlc.printed(out, "MISMATCH")
    return rc, out, st, done, mis

def find_id(out, n):
    return None

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    keep = "--keep" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = os.path.join(WORK, pid)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    gen = importlib.import_module("gen." + pid.lower())
    module = getattr(gen, "MODULE", pid)
    exe = build()
    t_build = time.time() - t0
    states = [0, 0]
    cases = []
    for m in getattr(gen, "TLA_GEN", []):          # scenarios enumerated by TLC
        o = os.path.join(work, m + ".ndjson")
        rc, out, st = runtlc.tlc(m, work, env={"OUT": o, "TIER": tier}, extra_cfg=getattr(gen, "GEN_CFG", ""))
        if rc != 0: raise Broken(f"generator {m}: " + out[-3000:])
        states[0] += st[0]; states[1] += st[1]
        if os.path.exists(o): cases += [json.loads(l) for l in open(o)]
        for i, c in enumerate(sorted(runtlc.printed(out, "CASE"), key=json.dumps)): cases.append(dict(c, id="%s-%d" % (m, i)))
    models = []
    for m in getattr(gen, "TLA_MODEL", []):        # design level model checking
        mod, cfg, expected = (*m, "")[:3]          # expected: the invariant a weakened model must violate
        rc, out, st = runtlc.tlc(mod, work, extra_cfg=cfg)
        if expected:
            if "Invariant %s is violated" % expected not in out: raise Broken(f"model {mod}: {expected} holds in the weakened model")
        elif rc != 0: raise Broken(f"model {mod}: " + out[-3000:])
        states[0] += st[0]; states[1] += st[1]
        models.append({"module": mod, "generated": st[0], "distinct": st[1]})
    if hasattr(gen, "expand"): cases = [gen.expand(c, seed) for c in cases]
    n_enum = len(cases)
    if hasattr(gen, "cases"):
        cases += gen.cases(seed, tier)
        for r in range(1, int(os.environ.get("REPEAT") or getattr(gen, "REPEAT", 1)) if tier == "quick" else 1):
            cases += [dict(c, id="%d:%s" % (r, c["id"])) for c in gen.cases(seed + 1000 * r, tier)]
    if os.environ.get("CASES") == "file": cases = [c for c in cases if "file" in c]   # for tools/plant.py
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids), "duplicate case ids"
    t_gen = time.time() - t0
    obs = run_harness(exe, cases, work, timeout=getattr(gen, "TIMEOUT", 20))
    t_run = time.time() - t0
    traces = []
    byid = {}
    for c in cases:
        if c["id"] not in obs: raise Broken("no observation for " + c["id"])
        t = gen.shape(c, obs[c["id"]]) if hasattr(gen, "shape") else merge(c, obs[c["id"]])
        traces.append(t); byid[c["id"]] = t
    done, mis = set(), {}
    chunks, size = [[]], 0          # TLC reads a trace as a whole
    for t in traces:
        size += len(json.dumps(t))
        if size > 30e6 and chunks[-1]: chunks.append([]); size = 0
        chunks[-1].append(t)
    for ci, chunk in enumerate(chunks):
        pending, rounds = chunk, 0
        while pending and rounds < 12:
            rc, out, st, d, m = validate(module, pending, work, tag="%d-%d" % (ci, rounds))
            states[0] += st[0]; states[1] += st[1]
            done |= set(d)
            for x in m: mis.setdefault(x["id"], x)
            cur = pending
            pending = [t for t in pending if t["id"] not in done and t["id"] not in mis]
            if rc == 0:
                break
            if rc == 124: raise Broken("TLC timeout")
            # an evaluation error: the observation is outside of what the spec can even read.
            mm = re.findall(r"\bn = (\d+)", out)
            if not mm: raise Broken("TLC failed:\n" + out[-4000:])
            # isolate the offending case
            bad = cur[int(mm[-1]) - 1]["id"]
            err = [l for l in out.splitlines() if "rror" in l or "ttempted" in l][:6]
            mis.setdefault(bad, {"id": bad, "k": 0, "why": "observation outside the specification: " + " | ".join(err)[:600]})
            pending = [t for t in pending if t["id"] != bad]
            rounds += 1
    pending = [t for t in traces if t["id"] not in done and t["id"] not in mis]
    left = [t["id"] for t in pending if t["id"] not in done and t["id"] not in mis]
    if left and not mis: raise Broken(f"{len(left)} cases without verdict, first {left[:3]}")
    t_tlc = time.time() - t0
    # known findings
    known = {}
    kf = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(kf):
        for l in open(kf):
            if l.strip():
                k = json.loads(l)
                if k.get("status") == "known" and k["property"] == pid: known[k["case"]] = k
    is_known = lambda i: i in known and known[i].get("why") in (None, mis[i]["why"])
    viol = [m for i, m in mis.items() if not is_known(i)]
    for i, k in known.items():
        if i in mis and is_known(i): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    samples = []
    for t in traces[:: max(1, len(traces) // 3)][:3]:
        s = json.dumps(t)
        samples.append(s if len(s) < 1500 else s[:1500] + "...")
    counts = {}
    for t in traces:
        g = t["id"].split(":")[-1].rstrip("0123456789-"); counts[g] = counts.get(g, 0) + 1
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states[1], "transitions": states[0], "traces_validated_against_impl": len(traces) - len(viol),
                       "cases_enumerated_by_tlc": n_enum, "cases_from_seed": len(cases) - n_enum,
                       "observations": sum(len(t.get("obs", [])) for t in traces),
                       "cases_by_group": counts, "design_models": models,
                       "samples": samples, "known_findings_seen": [i for i in known if i in mis]},
          "assumptions": getattr(gen, "ASSUME", []),
          "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(traces)} cases, {len(done)} conform, {len(mis)} deviate ({len(viol)} not known); "
          f"states {states[1]}; build {t_build:.0f}s gen {t_gen-t_build:.0f}s run {t_run-t_gen:.0f}s tlc {t_tlc-t_run:.0f}s")
    if viol:
        rp = os.path.join(HERE, "work", pid, "replay")
        os.makedirs(rp, exist_ok=True)
        for v in viol[:20]:
            p = os.path.join(rp, re.sub(r"[^A-Za-z0-9_.-]", "_", v["id"]) + ".json")
            with open(p, "w") as f:
                json.dump({"why": v, "case": byid[v["id"]], "input": next(c for c in cases if c["id"] == v["id"])}, f)
        for v in viol[:10]: print("  deviation", v["id"], "step", v["k"], ":", str(v["why"])[:400])
        p = os.path.join("work", pid, "replay", re.sub(r"[^A-Za-z0-9_.-]", "_", viol[0]["id"]) + ".json")
        print(f"VIOLATION property={pid} replay={p}")
    if not keep:
        for f in os.listdir(work):
            if f != "replay":
                q = os.path.join(work, f)
                shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
    return 1 if viol else 0

if __name__ == "__main__":
    try:
        rc = main()
    except Broken as e:
        print("CHECK BROKEN:", e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
