"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from techniques import T
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i.lower()}.py").exists():
        tech, oracle = T[i]
        checks.append({"property": i, "quick_cmd": f"./run {i} --tier quick", "thorough_cmd": f"./run {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + tech, "level": "exploration",
                       "level_note": f"monitored executions of the real code, judged against: {oracle}. Holds on the executions counted in the evidence; no claim beyond them"})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
