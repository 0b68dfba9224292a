"""Run TLC on a specification of /verif/spec."""
import os, re, subprocess, json, shutil
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

def tlc(module, workdir, init="Init", next_="Next", env=None, extra_cfg="", workers="8", heap="6g", timeout=800, args=()):
    os.makedirs(workdir, exist_ok=True)
    cfg = os.path.join(workdir, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(f"INIT {init}\nNEXT {next_}\nCHECK_DEADLOCK FALSE\n{extra_cfg}\n")
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC", "-workers", workers,
           "-metadir", os.path.join(workdir, "meta-" + module), "-noGenerateSpecTE", "-config", cfg, *args,
           os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=SPEC)
        out = p.stdout.decode("utf-8", "replace"); rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode("utf-8", "replace"); rc = 124
    shutil.rmtree(os.path.join(workdir, "meta-" + module), ignore_errors=True)
    out = "\n".join(l for l in out.splitlines() if not re.match(r"(Parsing|Semantic|Linting) ", l))
    st = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    states = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
    return rc, out, states

def printed(out, tag):
    """JSON payloads of PrintT("@TAG {...}") lines"""
    res = []
    for l in out.splitlines():
        if l.startswith('"@' + tag + ' '):
            s = json.loads(l)          # TLC prints a quoted string, escaped like JSON
            res.append(json.loads(s[len(tag) + 2:]))
    return res
