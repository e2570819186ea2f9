"""Writes DESIGN.md: tools/design_head.md, one section per property, the planted bugs."""
import importlib, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), str(V / "tools")]
from techniques import T
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
kf = json.loads((V / "known_findings.json").read_text())
sd = json.loads((V / "tools" / "seeded.json").read_text()) if (V / "tools" / "seeded.json").exists() else {}
bugs = {p.name: json.loads((p / "meta.json").read_text()) for p in sorted((V / "seeded").iterdir()) if (p / "meta.json").exists()}
head = (V / "tools" / "design_head.md").read_text().replace("{nfixed}", str(len(kf["fixed"]))).replace("{nopen}", str(len(kf["findings"])))
out = [head.rstrip("\n") + "\n"]


def para(t):
    return t[:1].upper() + t[1:].rstrip(".") + "."


for p in props:
    i = p["id"]
    m = importlib.import_module("checks." + i.lower())
    tech, oracle = T[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*{p['statement']}*\n")
    out.append(f"* Decided by: {para(tech)}")
    out.append(f"* Workload and monitor: {para(m.RULE)}")
    out.append(f"* Oracle: {para(oracle)}")
    a = getattr(m, "ASSUMPTIONS", None) or []
    if a:
        out.append(f"* Outside: {para('; '.join(a))}")
    req = m.REQUIRED if isinstance(m.REQUIRED, (list, tuple)) else sorted({k for v in m.REQUIRED.values() for k in v})
    out.append(f"* Must have been observed, or the check gives no verdict: {', '.join(req)}.")
    out.append(f"* Why tests cannot settle it: {para(p['why_tests_cant'])}")
    e = V / "tools" / "costs.json"
    if e.exists():
        c = json.loads(e.read_text()).get(i)
        if c:
            out.append(f"* Cost: {c}")
    fx = [x.split(" ", 2)[2] for x in kf["fixed"] if f"property={i} " in x]
    if fx:
        out.append(f"* Defects repaired ({len(fx)}): " + "; ".join(x.split(" ", 1)[0] + " " + x.split(" ", 1)[1] for x in fx) + ".")
    op = [x for x in kf["findings"] if x["property"] == i]
    if op:
        out.append(f"* Known findings: {len(op)} (see above).")
    b = [k for k, v in bugs.items() if v["property"] == i]
    if b:
        out.append("* Planted bugs: " + "; ".join(f"`{k}` {sd.get(k, {}).get('caught', 'not run')}" for k in b) + ".")
    out.append("")
out.append("## Planted bugs\n")
out.append("Each lies in `seeded/<id>/` with its patch and its demonstration. \"Check\" is the result of the quick check of the property (seed 1) with the bug; "
           "\"tests\" is the result of the repository's stable tests with it.\n")
out.append("| bug | property | what it breaks | needs | check | tests |")
out.append("|---|---|---|---|---|---|")
for k, v in bugs.items():
    s = sd.get(k, {})
    st = s.get("stable", "not run here")
    out.append(f"| {k} | {v['property']} | {v['what_it_breaks']} | {v['needs']} | {s.get('caught', '-')} | {st if isinstance(st, str) else 'fail'} |")
out.append("")
tail = V / "tools" / "design_tail.md"
if tail.exists():
    out.append(tail.read_text())
(V / "DESIGN.md").write_text("\n".join(out))
print(len(out), "lines")
