"""python tools/mutate.py [id-prefix ...]: mutation campaign on scratch copies of /repo under /tmp (removed afterwards)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
from mutants import M
from mutants2 import M2
M = M + M2

PAR = int(os.environ.get("MUT_PAR", "3"))


def one(m):
    mid, prop, f, old, new = m[:5]
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/gwinferno", d], check=True)
        subprocess.run(f"cp -a /verif/harness /verif/check.sh /verif/known_findings.json {d}/", shell=True, check=True)
        p = os.path.join(d, "gwinferno", f)
        s = open(p).read()
        if old == new or s.count(old) < 1:
            return mid, prop, "NOT-APPLIED", ""
        s = s.replace(old, new, 1)
        if "_CACHE" in new:
            s = s.replace("\nclass ", "\n_CACHE = {}\n\n\nclass ", 1)
        open(p, "w").write(s)
        env = dict(os.environ, VERIF_REPO=d, VERIF_PROCS="4", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        r = subprocess.run(["bash", "check.sh", prop, "quick"], cwd=d, env=env, capture_output=True, text=True)
        first = [l for l in r.stdout.splitlines() if l.startswith("    ")][:1]
        return mid, prop, {0: "MISSED", 1: "caught", 2: "NO-VERDICT"}.get(r.returncode, r.returncode), (first or [r.stdout[-200:]])[0].strip()[:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


sel = [m for m in M if len(sys.argv) == 1 or any(m[0].startswith(a) for a in sys.argv[1:])]
with ThreadPoolExecutor(PAR) as ex:
    for r in ex.map(one, sel):
        print(*r, flush=True)
