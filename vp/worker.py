"""One shard of one property check: corpus cases first, then Hypothesis search facet by facet."""
from . import boot  # noqa
import json, os, sys, time, zlib, io, contextlib, traceback


def main(pid, tier, seed, shard, nshards, outfile, budget, only=None):
    from .core import (facets_of, canon, decide, corpus, known_findings, StopShrink, StopTime)
    import hypothesis
    from . import boot
    boot.no_mutations()
    boot.native_convolutions()
    from hypothesis import given, settings, HealthCheck, Phase
    t0 = time.time()
    res = {"evaluations": 0, "facets": {}, "violation": None, "error": None, "known": [], "truncated": False}
    seen = {}
    samples = {}
    facets = facets_of(pid)
    known = known_findings(pid)

    def match_known(fname, case, sig):
        for k in known:
            if k.get("facet") == fname and ((k.get("sig") and k["sig"] == sig) or
                                            ("case" in k and canon(k["case"]) == canon(case))):
                return k
        return None

    prefix = []
    cur = open(outfile + ".cur", "w")  # the case in progress: names the culprit if the process dies

    def account(f, case, nontriv):
        d = res["facets"].setdefault(f.name, {"evaluations": 0, "nontrivial": 0})
        d["evaluations"] += 1
        res["evaluations"] += 1
        if nontriv:
            d["nontrivial"] += 1
            c = canon(case)
            s = seen.setdefault(f.name, set())
            h = zlib.crc32(c.encode()) ^ (len(c) << 33)
            if h not in s:
                s.add(h)
                n = len(s)
                if n in (1, 3, 10, 30, 100, 300):
                    samples.setdefault(f.name, []).append(c[:600])

    class Found(Exception):
        pass

    def run_case(f, case):
        """returns None or failure tuple"""
        cur.seek(0); cur.truncate()
        cur.write(json.dumps({"facet": f.name, "case": case}))
        cur.flush()
        r = decide(f, case)
        if not f.fork and len(prefix) < 4000:
            prefix.append((f.name, case))
        if r[0] == "ok":
            account(f, case, r[1])
            return None
        if r[0] == "err":
            res["error"] = r[1]
            raise StopTime()
        k = match_known(f.name, case, r[2])
        if k is not None:
            if k["what"] not in res["known"]:
                res["known"].append(k["what"])
            account(f, case, True)
            return None
        return r

    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            for i, c in enumerate(corpus(pid)):
                if i % nshards != shard or (only and c["facet"] not in only):
                    continue
                r = run_case(facets[c["facet"]], c["case"])
                if r is not None:
                    res["violation"] = {"facet": c["facet"], "case": c["case"], "msg": r[1], "sig": r[2],
                                        "source": "corpus"}
                    raise StopTime()
            for f in facets.values():
                if only and f.name not in only:
                    continue
                total = f.quick if tier == "quick" else f.thorough
                n = total // nshards + (1 if shard < total % nshards else 0)
                if n <= 0:
                    continue
                best = {}
                tfail = [None]

                def body(case):
                    if time.time() - t0 > budget and not best:
                        res["truncated"] = True
                        raise StopTime()
                    if tfail[0] is not None and time.time() - tfail[0] > 60:
                        raise StopShrink()
                    sink.seek(0); sink.truncate()
                    r = run_case(f, case)
                    if r is not None:
                        if tfail[0] is None:
                            tfail[0] = time.time()
                            with open(outfile + ".early", "w") as fh:
                                json.dump({"facet": f.name, "case": case, "msg": r[1]}, fh)
                        c = canon(case)
                        if not best or len(c) < len(best["c"]):
                            best.update(c=c, facet=f.name, case=case, msg=r[1], sig=r[2], source="search",
                                        prefix_len=len(prefix))
                        raise Found(r[1])

                s = (seed * 1000003 + shard * 7919 + zlib.crc32(f.name.encode())) % (2 ** 63)
                test = hypothesis.seed(s)(settings(max_examples=n, database=None, deadline=None,
                                                   suppress_health_check=list(HealthCheck),
                                                   phases=(Phase.generate, Phase.shrink),
                                                   report_multiple_bugs=False, print_blob=False)(
                    given(f.strategy())(body)))
                try:
                    test()
                except StopShrink:
                    pass
                except StopTime:
                    raise
                except BaseException as e:
                    if not best:
                        if isinstance(e, (KeyboardInterrupt,)):
                            raise
                        res["error"] = traceback.format_exc()
                        raise StopTime()
                if best:
                    best.pop("c")
                    res["violation"] = best
                    if not f.fork:
                        # does the minimal case fail in a fresh process?  If not, keep the history that led to it.
                        import subprocess
                        tmp = outfile + ".case"
                        json.dump({"property": pid, "facet": best["facet"], "case": best["case"]}, open(tmp, "w"))
                        p = subprocess.run([sys.executable, "-m", "vp.main", "--replay", tmp],
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                        if p.returncode != 1:
                            best["history"] = prefix[:best["prefix_len"]]
                    raise StopTime()
    except StopTime:
        pass
    except BaseException:
        res["error"] = traceback.format_exc()
    for name, d in res["facets"].items():
        d["distinct_nontrivial"] = len(seen.get(name, ()))
        d["hashes"] = sorted(seen.get(name, ()))
    res["samples"] = samples
    res["wall_s"] = time.time() - t0
    tmp = outfile + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(res, fh)
    os.replace(tmp, outfile)


if __name__ == "__main__":
    a = sys.argv[1:]
    main(a[0], a[1], int(a[2]), int(a[3]), int(a[4]), a[5], float(a[6]), a[7].split(",") if len(a) > 7 and a[7] else None)
    sys.stdout.flush()
    os._exit(0)
