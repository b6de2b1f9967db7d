"""Assembles DESIGN.md from docs/intro.md, the check modules' own descriptions, docs/oracles.json, docs/limits.md and docs/seeded.md."""
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(R, p)).read()  # noqa: E731
meta, orc = json.loads(rd("harness/meta.json")), json.loads(rd("docs/oracles.json"))
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
out = [rd("docs/intro.md"), "\n## Properties: how each is decided\n"]
for p in props:
    m, o = meta[p["id"]], orc[p["id"]]
    kinds = ", ".join(m["kinds"]) if len(m["kinds"]) < 10 else f"{len(m['kinds'])} kinds ({', '.join(m['kinds'][:3])}, ...)"
    out.append(f"### {p['id']} {p['title']}\n\n- **Monitored:** {'; '.join(p['anchors']['observe_at'])}.\n- **Workloads** ({kinds}): {m['rule']}.\n- **Oracle:** {o[0]}\n- **Bounds:** {'; '.join(m['assumptions'])}.\n- **Cost:** {o[1]}\n- **Beyond the tests:** {p['why_tests_cant']}\n")
out += [rd("docs/limits.md"), rd("docs/seeded.md")]
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out))
