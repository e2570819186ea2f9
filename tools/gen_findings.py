"""Rewrites the "fixed" list of known_findings.json from tools/fixes.txt (commit, property) and the commit subjects in /repo."""
import json, pathlib, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
log = subprocess.run(["git", "-C", repo, "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
subj = {}
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        s = s[4:].strip()
        subj[h[:7]] = s[4:].strip() if s.startswith("fix:") else s
prop = dict(l.split() for l in (V / "tools" / "fixes.txt").read_text().splitlines() if l.strip())
missing = [h for h in subj if h not in prop]
if missing:
    sys.exit("no property for " + ", ".join(f"{h} {subj[h]}" for h in missing))
p = V / "known_findings.json"
d = json.loads(p.read_text())
d["fixed"] = [f"fixed: property={prop[h]} {h} {s}" for h, s in subj.items()]
p.write_text(json.dumps(d, indent=1) + "\n")
print(len(d["findings"]), "open,", len(d["fixed"]), "fixed")
