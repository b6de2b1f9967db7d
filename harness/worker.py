"""One worker process: runs its share of a property's cases in one precision mode."""
import importlib
import json
import os
import sys
import time
import warnings

warnings.filterwarnings("ignore")


def main():
    cfg = json.loads(sys.argv[1])
    os.environ["JAX_ENABLE_X64"] = "1" if cfg["x64"] else "0"
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    out = dict(cases=0, done={}, events={}, comparisons=0, values=0, violations=[], samples=[], digests=[], errors=[], skipped={}, max_err={}, times={}, cut=0, lines=[], funcs=[])
    from . import reach

    try:
        import gwinferno

        if not os.path.realpath(gwinferno.__file__).startswith(os.path.realpath(repo) + "/"):
            raise RuntimeError(f"gwinferno imported from {gwinferno.__file__}, not {repo}")
        from . import core

        mod = importlib.import_module("harness.props." + cfg["prop"].lower())
        reach.start(repo)
    except Exception:  # noqa: BLE001
        import traceback

        out["errors"].append("import: " + traceback.format_exc()[-2500:])
        json.dump(out, open(cfg["out"], "w"))
        return
    if cfg.get("case"):
        mine = [tuple(cfg["case"])]
    else:
        mine = [c for c in core.plan(mod, cfg["tier"]) if c[2] == cfg["x64"]][cfg["shard"] :: cfg["nshards"]]
        # interleave kinds so that a deadline cuts all kinds alike
        order = {}
        keyed = []
        for c in mine:
            order[c[0]] = order.get(c[0], -1) + 1
            keyed.append((order[c[0]], c))
        mine = [c for _, c in sorted(keyed, key=lambda t: t[0])]
    t_end = time.time() + cfg["deadline"]
    for kind, index, x64 in mine:
        if time.time() > t_end:
            out["cut"] += 1
            continue
        rec, err, dt = core.run_case(mod, cfg["prop"], kind, index, cfg["seed"], x64, cfg["tier"])
        out["times"][kind] = out["times"].get(kind, 0) + dt
        if err:
            out["errors"].append(f"{kind}/{index}: {err}")
            continue
        if rec.skipped and not rec.violations:
            out["skipped"][rec.skipped] = out["skipped"].get(rec.skipped, 0) + 1
            continue
        out["cases"] += 1
        out["done"][kind] = out["done"].get(kind, 0) + 1
        for k, v in rec.events.items():
            out["events"][k] = out["events"].get(k, 0) + v
        out["comparisons"] += rec.comparisons
        out["values"] += rec.values
        if rec.comparisons:
            out["digests"].append(rec.digest.hexdigest()[:16])
        out["max_err"][kind] = max(out["max_err"].get(kind, 0), rec.max_err)
        if len(out["samples"]) < 3 and rec.comparisons:
            out["samples"].append(dict(kind=kind, index=index, x64=x64, params=rec.params, events=rec.events, comparisons=rec.comparisons))
        for v in rec.violations:
            out["violations"].append({**v, **dict(kind=kind, index=index, x64=x64, params=rec.params)})
        if len(out["violations"]) > 40 or (out["violations"] and cfg.get("first")):
            break
    out["lines"], out["funcs"] = sorted(reach.LINES), sorted(reach.FUNCS)
    json.dump(out, open(cfg["out"], "w"), default=str)


if __name__ == "__main__":
    main()
