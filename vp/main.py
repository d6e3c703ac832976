"""Driver: shards the search over processes, merges coverage, writes evidence, prints the verdict."""
from . import boot
import hashlib, json, os, subprocess, sys, time
from .core import ROOT, REPO, facets_of, decide, canon, load_property


def replay(path):
    boot.native_convolutions()
    rec = json.load(open(path))
    f = facets_of(rec["property"])[rec["facet"]]
    import io, contextlib
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        if rec.get("history"):
            fs = facets_of(rec["property"])
            r = ("ok", True)
            for name, case in rec["history"]:
                r = decide(fs[name], case)
                if r[0] == "viol":
                    break
        else:
            r = decide(f, rec["case"])
    if r[0] == "viol":
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        print("  " + r[1])
        return 1
    if r[0] == "err":
        print(r[1], file=sys.stderr)
        return 3
    print("case holds")
    return 0


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = os.environ.get("VP_FACETS", "")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    nsh = int(os.environ.get("VP_SHARDS", "8"))
    budget = 420.0 if tier == "quick" else float(os.environ.get("VP_BUDGET", "3300"))
    hard = 780.0 if tier == "quick" else budget + 600
    scratch = os.environ.get("VP_SCRATCH") or "/tmp"
    t0 = time.time()
    procs = []

    def start(s, attempt=0):
        out = os.path.join(scratch, "shard%d.json" % s)
        log = open(os.path.join(scratch, "shard%d.log" % s), "wb")
        return (s, out, subprocess.Popen([sys.executable, "-m", "vp.worker", pid, tier, str(seed + 1000 * attempt), str(s),
                                          str(nsh), out, str(budget), only], stdout=log, stderr=log))
    for s in range(nsh):
        procs.append(start(s))
    results = {}
    crashes, attempts = [], {}
    stop_at = None
    while True:
        alive = 0
        for i, (s, out, p) in enumerate(procs):
            if s in results:
                continue
            rc = p.poll()
            if rc is None:
                alive += 1
                if os.path.exists(out + ".early") and stop_at is None:
                    stop_at = time.time() + 90
                continue
            if os.path.exists(out):
                results[s] = json.load(open(out))
                if results[s]["violation"] and (stop_at is None or stop_at > time.time()):
                    stop_at = time.time()
            elif rc < 0 and attempts.get(s, 0) < 2 and time.time() - t0 < budget:
                # the interpreter itself died (torch's native code): no verdict on that case, go on with other ones
                cur = open(out + ".cur", errors="replace").read()[:2000] if os.path.exists(out + ".cur") else ""
                crashes.append("signal %d: %s" % (-rc, cur))
                attempts[s] = attempts.get(s, 0) + 1
                procs[i] = start(s, attempts[s])
                alive += 1
            else:
                tail = open(os.path.join(scratch, "shard%d.log" % s), errors="replace").read()[-3000:]
                results[s] = {"error": "worker died rc=%s\n%s" % (rc, tail), "violation": None, "facets": {},
                              "evaluations": 0, "samples": {}, "known": [], "truncated": False}
        if alive == 0:
            break
        now = time.time()
        if (stop_at is not None and now >= stop_at and any(r["violation"] for r in results.values())) \
                or (stop_at is not None and now >= stop_at + 60) or now - t0 > hard:
            for s, out, p in procs:
                if s not in results and p.poll() is None:
                    p.kill()
                    p.wait()
                    if os.path.exists(out + ".early"):
                        e = json.load(open(out + ".early"))
                        results[s] = {"violation": dict(e, sig=None, source="search (not shrunk)"), "error": None,
                                      "facets": {}, "evaluations": 0, "samples": {}, "known": [], "truncated": True}
            for s, out, p in procs:
                if s not in results:
                    results[s] = {"error": None if any(r["violation"] for r in results.values()) else "timeout",
                                  "violation": None, "facets": {}, "evaluations": 0, "samples": {}, "known": [],
                                  "truncated": True}
            break
        time.sleep(0.1)
    # merge
    facets = facets_of(pid)
    cov, hashes = {}, {}
    ev = 0
    for s, r in sorted(results.items()):
        ev += r["evaluations"]
        for name, d in r["facets"].items():
            c = cov.setdefault(name, {"evaluations": 0, "nontrivial": 0})
            c["evaluations"] += d["evaluations"]
            c["nontrivial"] += d["nontrivial"]
            hashes.setdefault(name, set()).update(d["hashes"])
    samples = []
    for name in facets:
        got = []
        for s, r in sorted(results.items()):
            got += r["samples"].get(name, [])
        samples += [{"facet": name, "case": c} for c in sorted(set(got), key=len)[-2:]]
    dn = 0
    for name in cov:
        cov[name]["distinct_nontrivial"] = len(hashes[name])
        cov[name]["rule"] = facets[name].rule
        dn += len(hashes[name])
    if crashes:
        print("note: %d worker(s) died and were restarted with other cases: %s" % (len(crashes), crashes[0][:600]), file=sys.stderr)
    viols = [r["violation"] for s, r in sorted(results.items()) if r["violation"]]
    errs = [r["error"] for s, r in sorted(results.items()) if r["error"]]
    known = sorted({k for r in results.values() for k in r["known"]})
    mod = load_property(pid)
    evd = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": ev, "distinct_nontrivial": dn,
                        "rule": getattr(mod, "RULE", "") + " Facets: " +
                        "; ".join("%s: %s" % (f.name, f.rule) for f in facets.values()),
                        "facets": cov, "samples": samples[:24], "shards": nsh, "crashed_workers": crashes,
                        "truncated": any(r["truncated"] for r in results.values())},
           "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
           "wall_s": round(time.time() - t0, 2),
           "violations": len(viols)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(evd, fh, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if viols:
        v = min(viols, key=lambda v: (bool(v.get("history")), v["source"].endswith("not shrunk)"), len(canon(v["case"]))))
        rec = {"property": pid, "facet": v["facet"], "case": v["case"], "message": v["msg"], "seed": seed, "tier": tier}
        if v.get("history"):
            rec["history"] = v["history"]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s-%s.json" % (
            pid, v["facet"], hashlib.sha1(canon(v["case"]).encode()).hexdigest()[:10]))
        with open(path, "w") as fh:
            json.dump(rec, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  facet=%s case=%s" % (v["facet"], canon(v["case"])[:2000]))
        print("  " + v["msg"][:2000])
        return 1
    if errs:
        print("CHECK ERROR (no verdict) in %s:" % pid, file=sys.stderr)
        print(errs[0], file=sys.stderr)
        return 3
    print("%s %s: held on %d cases (%d distinct non-trivial), seed %d, %.1f s%s" % (
        pid, tier, ev, dn, seed, time.time() - t0, " [time budget hit]" if evd["coverage"]["truncated"] else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
