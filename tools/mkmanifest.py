"""Regenerates harness/meta.json and MANIFEST.json from the property modules (run with /opt/venv/bin/python from /verif)."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get("VERIF_REPO", "/repo")]
os.environ.setdefault("JAX_PLATFORMS", "cpu")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
meta, checks, na = {}, [], []
for i in ids:
    if not os.path.exists(os.path.join(ROOT, "harness", "props", i.lower() + ".py")):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    m = importlib.import_module("harness.props." + i.lower())
    meta[i] = dict(kinds=list(m.KINDS), rule=m.RULE, assumptions=m.ASSUMPTIONS)
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
        technique=getattr(m, "TECHNIQUE", "runtime monitoring: reference-model monitor over recorded calls of the real code under generated and hostile workloads, float32 and float64"),
        level="exploration", level_note=getattr(m, "LEVEL_NOTE", "every observed execution is judged against an independent float64 reference; reach comes from seeded workload diversity, not enumeration")))
json.dump(meta, open(os.path.join(ROOT, "harness", "meta.json"), "w"), indent=1)
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
