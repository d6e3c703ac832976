"""Shared machinery: a property is a list of facets; a facet is a Hypothesis strategy producing plain JSON cases
plus a pure function deciding one case.  The deciding function is used unchanged by the search, by the corpus of
saved cases and by --replay, so a replay needs no Hypothesis."""
import importlib, json, os, sys, time, traceback, zlib, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("E2CNN_REPO", "/repo"))
LIB = os.path.join(REPO, "e2cnn") + os.sep


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class StopShrink(KeyboardInterrupt):
    pass


class StopTime(KeyboardInterrupt):
    pass


def need(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


class Facet:
    """name; strategy: callable -> Hypothesis strategy of JSON cases; check(case) -> truthy iff the case was
    non-trivial, raising Violation; quick / thorough: number of cases over all shards; fork: run every case in a
    forked child so that process-wide caches start empty."""

    def __init__(self, name, strategy, check, quick, thorough=None, rule="", fork=False):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 12
        self.rule, self.fork = rule, fork


def load_property(pid):
    return importlib.import_module("vp.%s" % pid.lower())


def facets_of(pid):
    return {f.name: f for f in load_property(pid).FACETS}


def canon(case):
    return json.dumps(case, sort_keys=True)


def from_library(exc):
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(LIB):
            return True
        tb = tb.tb_next
    return False


def library_site(exc):
    site = None
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(LIB):
            site = "%s:%s" % (fn[len(LIB):], tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return site


def decide_here(facet, case):
    """-> ('ok', nontrivial) | ('viol', msg, sig) | ('err', traceback)"""
    try:
        nt = facet.check(case)
        return ("ok", bool(nt) or nt is None)
    except Violation as v:
        return ("viol", str(v), v.sig)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # noqa
        if from_library(e):
            return ("viol", "the library raised %s on a valid input: %s [at %s]"
                    % (type(e).__name__, str(e)[:400], library_site(e)), "raise:%s" % library_site(e))
        if os.environ.get("VP_STRICT") or isinstance(e, OSError):
            return ("err", traceback.format_exc())
        # what the library returned could not be used; never happens on a tree where the property holds
        last = traceback.extract_tb(e.__traceback__)[-1]
        return ("viol", "using what the library returned raised %s: %s [at %s:%d]" % (
            type(e).__name__, str(e)[:400], os.path.basename(last.filename), last.lineno), "use:%s" % type(e).__name__)


def decide_fork(facet, case):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            res = decide_here(facet, case)
            data = json.dumps(res).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 7
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (4, 6, 8, 11):
            return ("viol", "the process died of signal %d" % os.WTERMSIG(st), "signal")
        return ("err", "forked case died, status %r" % st)
    return tuple(json.loads(data))


def decide(facet, case):
    return decide_fork(facet, case) if facet.fork else decide_here(facet, case)


def load_jsonl(path):
    if not os.path.exists(path):
        return []
    out = []
    for line in open(path):
        line = line.strip()
        if line and not line.startswith("#"):
            out.append(json.loads(line))
    return out


def known_findings(pid):
    return [k for k in load_jsonl(os.path.join(ROOT, "known_findings.jsonl"))
            if k.get("status") == "known" and k["property"] == pid]


def corpus(pid):
    return load_jsonl(os.path.join(ROOT, "corpus", pid + ".jsonl"))
