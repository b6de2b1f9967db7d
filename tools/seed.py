"""python tools/seed.py [ID ...]: writes /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms it on scratch copies under /tmp:
old text is in the original tree, stable tests pass with the patch, demo 0 without and non-zero with it, and whether the property's quick check catches it."""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "8c26404"


def sh(cmd, cwd, env=None, t=1200):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=dict(os.environ, **(env or {})))
    return r.returncode, r.stdout + r.stderr


def one(sid):
    g = runpy.run_path(f"{V}/tools/seeds/{sid}.py")
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    out = {"id": sid, "property": g["PROPERTY"]}
    try:
        w = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        for f, old, new in g["EDITS"]:
            p = f"{w}/gwinferno/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            base = sh(f"git show {BASE}:gwinferno/{f}", w)[1].splitlines()
            gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
            for l in gone:
                assert l in base or any(l.strip() and l in b for b in base), (sid, "not an original line", l)
            open(p, "w").write(s.replace(old, new))
        sd = f"{V}/seeded/{sid}"
        os.makedirs(sd, exist_ok=True)
        open(f"{sd}/patch.diff", "w").write(sh("git diff", w)[1])
        open(f"{sd}/demo.py", "w").write(g["DEMO"].lstrip("\n"))
        open(f"{sd}/demo.sh", "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{sd}/meta.json", "w"), indent=1)
        lay = d + "/lay"
        shutil.copytree(sd, lay)
        out["demo_clean"] = sh(f"bash {lay}/demo.sh", "/repo")[0]
        rc, o = sh(f"bash {lay}/demo.sh", w)
        out["demo_patched"], out["demo_says"] = rc, o.strip().splitlines()[-1:] 
        if not os.environ.get("SEED_NOTEST"):
            rc, o = sh("/opt/venv/bin/python -m pytest -q --no-header -n 4 -p no:cacheprovider --timeout=300 tests 2>&1 | tail -1", w, {"PYTHONPATH": w, "JAX_PLATFORMS": "cpu", "MPLBACKEND": "Agg"})
            out["tests"] = o.strip().splitlines()[-1]
        env = {"VERIF_REPO": w}
        subprocess.run(f"mkdir {d}/v && cp -a {V}/harness {V}/check.sh {V}/known_findings.json {d}/v/", shell=True, check=True)
        rc, o = sh(f"bash check.sh {g['PROPERTY']} quick", d + "/v", env)
        out["check"] = {0: "MISSED", 1: "caught"}.get(rc, f"rc {rc}")
        out["first"] = ([l.strip()[:140] for l in o.splitlines() if l.startswith("    ")] or [o[-150:]])[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(f"{V}/tools/seeds") if f.endswith(".py"))
for i in ids:
    try:
        print(json.dumps(one(i)), flush=True)
    except AssertionError as e:
        print("BAD", i, e, flush=True)
