"""Developer tool: cases of past violations (replays/) that hold on the current tree become regression cases (corpus/)."""
import glob, json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from vp import boot  # noqa
from vp.core import facets_of, decide, canon, corpus
for p in sorted(glob.glob(os.path.join(R, "replays", "*.json"))):
    d = json.load(open(p))
    if d.get("history"):
        continue
    pid = d["property"]
    try:
        f = facets_of(pid)[d["facet"]]
    except KeyError:
        continue
    if any(canon(c["case"]) == canon(d["case"]) and c["facet"] == d["facet"] for c in corpus(pid)):
        continue
    try:
        r = decide(f, d["case"])
    except BaseException as e:
        r = ("err", repr(e))
    if r[0] == "ok":
        with open(os.path.join(R, "corpus", pid + ".jsonl"), "a") as fh:
            fh.write(canon({"facet": d["facet"], "case": d["case"]}) + "\n")
    print(os.path.basename(p), r[0], "" if r[0] == "ok" else r[1][-200:])
