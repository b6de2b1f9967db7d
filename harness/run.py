"""python -m harness.run <PROPERTY> [quick|thorough]      run a check
python -m harness.run replay <replay.json>             run one recorded case again

exit 0: property held on everything observed; 1: violation (line printed); 2: no verdict.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from .core import dump

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


def worker_env():
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "JAX_ENABLE_X64", "XLA_FLAGS", "PYTHONHASHSEED")}
    env.update(
        JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", TQDM_DISABLE="1",
    )
    return env


def spawn(cfg, log):
    return subprocess.Popen([sys.executable, "-W", "ignore", "-m", "harness.worker", json.dumps(cfg)], cwd=ROOT, env=worker_env(), stdout=log, stderr=subprocess.STDOUT)


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("known", []) if f["property"] == prop]


def matches(f, v):
    return f["kind"] == v["kind"] and f["what"] in v["what"]


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = float(os.environ.get("VERIF_DEADLINE", "240" if tier == "quick" else "780"))
    work = tempfile.mkdtemp(prefix="verif_")
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    procs = []
    half = max(1, NPROC // 2)
    first = bool(os.environ.get("VERIF_FIRST"))  # for mutation campaigns: stop at the first violation
    try:
        for x64 in (False, True):
            for s in range(half):
                cfg = dict(prop=prop, tier=tier, seed=seed, x64=x64, shard=s, nshards=half, deadline=limit, first=first, out=os.path.join(work, f"{int(x64)}_{s}.json"))
                log = open(cfg["out"] + ".log", "w")
                procs.append((cfg, spawn(cfg, log), log))
        res, errors = [], []
        while first and any(p.poll() is None for _, p, _ in procs) and time.time() - t0 < limit + 300:
            time.sleep(0.5)
            for cfg, p, _ in procs:
                if p.poll() is not None and os.path.exists(cfg["out"]) and json.load(open(cfg["out"]))["violations"]:
                    for _, q, _ in procs:
                        if q is not p:
                            q.kill()
        for cfg, p, log in procs:
            try:
                p.wait(timeout=max(5, limit + 300 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                errors.append(f"worker {cfg['x64']}/{cfg['shard']} did not finish in time")
            log.close()
            if os.path.exists(cfg["out"]):
                try:
                    res.append(json.load(open(cfg["out"])))
                except ValueError:
                    errors.append("unreadable worker result")
            else:
                errors.append(f"worker {cfg['x64']}/{cfg['shard']} exit {p.returncode}: " + open(cfg["out"] + ".log").read()[-1500:])
    finally:
        for _, p, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(work, ignore_errors=True)

    def total(key):
        return sum(r[key] for r in res)

    def merge(key, how=lambda a, b: a + b):
        d = {}
        for r in res:
            for k, v in r[key].items():
                d[k] = how(d[k], v) if k in d else v
        return d

    for r in res:
        errors += r["errors"]
    done = merge("done")
    viol = [v for r in res for v in r["violations"]]
    meta = json.load(open(os.path.join(ROOT, "harness", "meta.json")))[prop]
    missing = [k for k in meta["kinds"] if not done.get(k)]
    known, new = [], []
    kf = known_findings(prop)
    for v in viol:
        f = next((f for f in kf if matches(f, v)), None)
        (known if f else new).append((f, v))
    digests = {d for r in res for d in r["digests"]}
    wall = round(time.time() - t0, 2)
    events = merge("events")
    lines = {(f, n) for r in res for f, n in r.get("lines", [])}
    funcs = sorted({f for r in res for f in r.get("funcs", [])})
    per_file = {f: sum(1 for g, _ in lines if g == f) for f in sorted({f for f, _ in lines})}
    if os.environ.get("VERIF_LINES"):
        dump(os.path.join(os.environ["VERIF_LINES"], prop + ".json"), sorted(lines))
    dump(ev_path, dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=total("cases"), distinct_nontrivial=len(digests), rule=meta["rule"],
            samples=[s for r in res for s in r["samples"]][:6],
            cases_per_kind=done, monitor_events=dict(sorted(events.items())), comparisons=total("comparisons"), compared_values=total("values"),
            closest_to_limit=merge("max_err", max), skipped=merge("skipped"), not_run_deadline=total("cut"), repository_lines_reached=per_file, repository_functions_reached=funcs, seconds_per_kind={k: round(v, 1) for k, v in merge("times").items()},
        ),
        assumptions=meta["assumptions"], wall_s=wall, violations=len(new), errors=[e[-600:] for e in errors[:5]], known_findings=len(known),
    ))
    for text in sorted({f["text"] for f, _ in known}):
        print(f"KNOWN-FINDING: property={prop} {text}")
    if new:
        seen = set()
        for n, (_, v) in enumerate(new):
            key = (v["kind"], v["what"].split(":")[0])
            if key in seen or len(seen) >= 8:
                continue
            seen.add(key)
            path = os.path.join(ROOT, "evidence", "replays", f"{prop}_{v['kind']}_{v['index']}_{'x64' if v['x64'] else 'f32'}_{seed}_{tier}.json")
            dump(path, dict(property=prop, seed=seed, tier=tier, case=[v["kind"], v["index"], v["x64"]], violation=v))
            print(f"VIOLATION property={prop} replay={path}")
            print("   ", v["kind"], v["index"], "x64" if v["x64"] else "f32", "|", v["what"], "|", {k: v[k] for k in v if k in ("actual", "expected", "limit", "at", "n_bad", "where")})
        return 1
    if errors:
        print(f"NO VERDICT property={prop}: harness errors\n" + "\n".join(e[-1500:] for e in errors[:3]))
        return 2
    if missing:
        print(f"NO VERDICT property={prop}: monitors never reached for {missing}")
        return 2
    print(f"HELD property={prop} tier={tier} seed={seed} cases={total('cases')} distinct={len(digests)} comparisons={total('comparisons')} values={total('values')} events={sum(events.values())} wall={wall}s")
    return 0


def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif_")
    try:
        out = os.path.join(work, "o.json")
        cfg = dict(prop=d["property"], tier=d["tier"], seed=d["seed"], x64=d["case"][2], shard=0, nshards=1, deadline=600, out=out, case=d["case"])
        p = spawn(cfg, sys.stdout)
        p.wait()
        r = json.load(open(out))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for v in r["violations"]:
        print(json.dumps(v, indent=1))
    for e in r["errors"]:
        print(e)
    if r["violations"]:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 2 if r["errors"] else 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
