"""P05: results do not depend on what was computed before.

A case is a target request and a history of other requests.  Three processes decide it: one computes the target
alone, one computes the history and then the target, one builds the target object, runs the history and evaluates
the object afterwards.  The three digests must agree."""
import json, os, pickle, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need, Violation, from_library
from .gen import (repeated, groups, group, el, reps, rep, rep_size, order, SEED, subgroup_ids, sub_spec, sgid, L, spaces, space,
                  gspec, ftype, test_elements, irrep_ids, axes, weighted, rng, PI)
from .ref import arr

RULE = "non-trivial: the history contains at least one request of the same kind as the target."


_SPACES = {}


def shared_space(sp):
    """requests of one process about the same space use the same object, as the layers of a network do"""
    k = json.dumps(sp, sort_keys=True)
    if k not in _SPACES:
        _SPACES[k] = space(sp)
    return _SPACES[k]


# ---- requests ---------------------------------------------------------------------------------------------------
def build(op):
    """-> zero-argument function returning the digest (nested lists of arrays) of the built object"""
    k = op["op"]
    if k == "rep":
        r = rep(op["g"], op["r"])
        es = [el(op["g"], e) for e in test_elements(op["g"])]
        return lambda: [[np.asarray(r(e), float) for e in es], sorted(r.supported_nonlinearities), list(r.irreps), r.size]
    if k == "restrict":
        r = rep(op["g"], op["r"])
        q = r.restrict(sgid(op["s"]))
        hs = sub_spec(op["g"], op["s"])
        es = [el(hs, e) for e in test_elements(hs)]
        return lambda: [[np.asarray(q(e), float) for e in es], sorted(q.supported_nonlinearities), list(q.irreps)]
    if k == "irreps":
        G = group(op["g"])
        es = [el(op["g"], e) for e in test_elements(op["g"])]
        return lambda: [[np.asarray(G.irrep(*i)(e), float) for e in es] for i in irrep_ids(op["g"])]
    if k == "kernel":
        S = shared_space(op["sp"])
        gs = gspec(op["sp"])
        B = S.build_kernel_basis(rep(gs, op["i"], S.fibergroup), rep(gs, op["o"], S.fibergroup), sigma=op["sigma"],
                                 rings=op["rings"], **kernel_kw(op))
        P = rng(5).uniform(-3, 3, size=(2, 7))
        P[:, 0] = 0
        return lambda: [B.sample(P), [sorted((str(a), round(float(b), 6)) for a, b in x.items() if a in
                                             ("radius", "sigma", "frequency", "idx")) for x in B]]
    if k == "diffop":
        S = shared_space(op["sp"])
        gs = gspec(op["sp"])
        B = S.build_diffop_basis(rep(gs, op["i"], S.fibergroup), rep(gs, op["o"], S.fibergroup), max_power=op["mp"],
                                 discretization=L()["d"].DiscretizationArgs(angle_offset=op["ao"]), **kernel_kw(op))
        n = B.maximum_order + 1 + op["pad"]
        ax = np.arange(n) - (n - 1) / 2
        P = np.stack(np.meshgrid(ax, -ax)).reshape(2, -1)
        return lambda: [B.sample(P), [np.array(c) for c in B.coefficients]]
    if k in ("conv", "convT", "pdo"):
        m = layer(op)
        return lambda: digest_layer(m, op)
    raise KeyError(k)


def kernel_kw(op):
    return {} if gspec(op["sp"])[0] in ("SO2", "O2") and op.get("bare") else {"maximum_frequency": op["mf"]} \
        if op["mo"] is None else {"maximum_frequency": op["mf"], "maximum_offset": op["mo"]}


def layer(op):
    n, t = L()["n"], L()["torch"]
    S = shared_space(op["sp"])
    i, o = ftype(op["sp"], op["is"], S), ftype(op["sp"], op["os"], S)
    t.manual_seed(op["seed"])
    kw = {"recompute": op["recompute"], "bias": True}
    if k_pdo(op):
        m = n.R2Diffop(i, o, kernel_size=op["ks"], accuracy=op["acc"], dilation=op["dil"], angle_offset=op["ao"], **kw)
    else:
        C = n.R2Conv if op["op"] == "conv" else n.R2ConvTransposed
        kw["frequencies_cutoff"] = (lambda r, c=op["fco"]: c) if op["fco"] >= 0 else float(op["fco"])
        if op["sigma"] is not None:
            kw["sigma"] = op["sigma"]
        if op["rings"] is not None:
            kw["rings"] = list(op["rings"])
        m = C(i, o, op["ks"], dilation=op["dil"], **kw)
    if op["init"]:
        t.manual_seed(op["seed"] + 1)
        n.init.generalized_he_init(m.weights.data, m.basisexpansion, cache=op["init"] == "cache")
    return m


def k_pdo(op):
    return op["op"] == "pdo"


def digest_layer(m, op):
    t = L()["torch"]
    m.train()
    f, b = m.expand_parameters()
    out = [arr(m.weights), arr(f), None if b is None else arr(b), [str(x) for x in m.basisexpansion.get_basis_names()]]
    m.eval()
    out.append(arr(m.filter))
    return out


def perform(op):
    """run a history request; failing requests (e.g. an empty basis) are fine, they just have no result"""
    k = op["op"]
    try:
        if k == "disturb":
            m = layer(op["layer"])
            if op["how"] == "double":
                m.double()
            elif op["how"] == "load":
                sd = m.state_dict()
                m.load_state_dict({a: (L()["torch"].rand_like(b) if b.is_floating_point() else b) for a, b in sd.items()})
            elif op["how"] == "zero":
                for p in list(m.parameters()) + list(m.buffers()):
                    p.data.zero_()
            elif op["how"] == "evaltrain":
                m.eval(); m.train(); m.eval()
            return
        if k == "disk":
            from e2cnn.diffops import utils as u
            p = os.path.join(os.getcwd(), "c", "cache.pickle")
            u.store_cache(p) if op["how"] == "store" else u.load_cache(p)
            return
        build(op)()
    except Exception as e:
        if not tolerated(e):
            raise


def tolerated(e):
    """a request without any admissible element (or needing more grid points) is rejected by design"""
    return isinstance(e, (ValueError, AssertionError)) or type(e).__name__ == "EmptyBasisException"


def value(fn):
    try:
        return ["value", fn()]
    except Exception as e:
        if tolerated(e):
            return ["rejected", type(e).__name__]
        raise


def in_child(fn):
    """run fn in a forked child in a scratch directory; returns its picklable result"""
    r, w = os.pipe()
    d = tempfile.mkdtemp(prefix="vp05_")
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.chdir(d)
            try:
                res = ("ok", fn())
            except Exception as e:
                import traceback
                res = ("exc", "%s: %s" % (type(e).__name__, str(e)[:300]), from_library(e), traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    res = pickle.loads(data)
    if res[0] == "exc":
        if res[2]:
            raise Violation("the library raised on a valid request: %s" % res[1], "raise")
        raise RuntimeError(res[3])
    return res[1]


def differs(a, b, path=""):
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return "%s: %s items instead of %s" % (path, len(b) if isinstance(b, (list, tuple)) else "?", len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, path + "[%d]" % i)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return "%s: shape %s instead of %s" % (path, b.shape, a.shape)
        if a.size and not np.allclose(a, b, rtol=1e-5, atol=1e-6):
            return "%s: values differ by %.3g" % (path, np.abs(a - b).max())
        return None
    return None if (a is None) == (b is None) and (a == b) is not False and str(a) == str(b) else "%s: %r instead of %r" % (path, b, a)


def c_hist(c):
    T, H = c["t"], c["h"]
    alone = in_child(lambda: value(lambda: build(T)()))

    def after():
        for op in H:
            perform(op)
        return value(lambda: build(T)())

    def held():
        box = []
        first = value(lambda: box.append(build(T)) or box[0]())
        for op in H:
            perform(op)
        return [first, value(box[0]) if first[0] == "value" else first]
    got = in_child(after)
    what = "%s after %d other requests" % (T["op"], len(H))
    need(alone[0] == got[0], lambda: "%s is %s, but %s when asked first" % (what, got[0], alone[0]))
    d = differs(alone, got)
    need(not d, lambda: "%s differs from the same request in a fresh process: %s" % (what, d))
    f = in_child(held)
    d = differs(alone, f[0]) or differs(alone, f[1])
    need(not d, lambda: "%s: an object built first changed while other requests were served: %s" % (what, d))
    return alone[0] == "value" and any(h["op"] == T["op"] or h["op"] in ("disturb", "disk") for h in H)


# ---- generators -------------------------------------------------------------------------------------------------
SP = dict(maxN=6, maxm=3, minN=2, big=False)


def s_in(gs, maxsize=6):
    r = reps(gs, maxsize=maxsize, depth=1, restricted=False)
    sums = st.tuples(st.sampled_from(["perm", "orth", "sign"]), SEED, r).map(lambda t: ["nam", "same", ["cob"] + list(t)])
    return weighted((3, r), (1, r.map(lambda x: ["nam", "same", x])), (2, sums))


def s_fields(gs):
    return repeated(gs, st.lists(s_in(gs, 5), min_size=1, max_size=2), 10, 2)


def s_kernel(sp):
    gs = gspec(sp)
    k = st.integers(1, 3)
    return k.flatmap(lambda n: st.fixed_dictionaries({
        "op": st.just("kernel"), "sp": st.just(sp), "i": s_in(gs), "o": s_in(gs),
        "sigma": st.lists(st.sampled_from([0.3, 0.6, 1.0]), min_size=n, max_size=n),
        "rings": st.lists(st.sampled_from([0.0, 1.0, 1.5, 2.0]), min_size=n, max_size=n),
        "mf": st.integers(0, 5), "mo": st.one_of(st.none(), st.integers(0, 2))}))


def s_diffop(sp):
    gs = gspec(sp)
    return st.fixed_dictionaries({
        "op": st.just("diffop"), "sp": st.just(sp), "i": s_in(gs, 4), "o": s_in(gs, 4), "mp": st.integers(0, 2),
        "ao": st.sampled_from([None, None, 0.3, PI / 4]), "mf": st.integers(0, 3),
        "mo": st.one_of(st.none(), st.integers(0, 1)), "pad": st.integers(0, 2)})


def s_layer(sp, kinds=("conv", "conv", "convT", "pdo")):
    gs = gspec(sp)
    f = s_fields(gs)

    def fix(d):
        if d["op"] == "pdo":
            d = dict(d, rings=None)
        return d
    return st.fixed_dictionaries({
        "op": st.sampled_from(kinds), "sp": st.just(sp), "is": f, "os": f, "ks": st.sampled_from([3, 3, 5]),
        "dil": st.sampled_from([1, 1, 2]), "recompute": st.sampled_from([False, False, True]),
        "fco": st.sampled_from([-1.0, -1.0, -2.0, -3.0, 1, 2]), "sigma": st.sampled_from([None, None, 0.5, 1.0]),
        "rings": st.sampled_from([None, None, [0.0, 1.0], [0.0, 0.7]]), "acc": st.sampled_from([None, 1, 2]),
        "ao": st.sampled_from([None, None, 0.3]), "seed": st.integers(0, 9),
        "init": st.sampled_from(["", "cache", "nocache"])}).map(fix)


def s_restrict():
    return groups(maxN=8, maxm=5).flatmap(lambda g: st.fixed_dictionaries(
        {"op": st.just("restrict"), "g": st.just(g), "r": reps(g, maxsize=10, depth=1, restricted=False),
         "s": subgroup_ids(g, 6)}))


def s_rep():
    return groups(maxN=8, maxm=5).flatmap(lambda g: st.fixed_dictionaries(
        {"op": st.just("rep"), "g": st.just(g), "r": reps(g, maxsize=10, depth=1)}))


def s_irr():
    return groups(maxN=8, maxm=6).map(lambda g: {"op": "irreps", "g": g})


def variants(t):
    """requests differing from t in one or two aspects"""
    k = t["op"]
    if k in ("rep", "restrict", "irreps"):
        g = t["g"]
        return st.one_of(
            st.integers(0, 4).map(lambda d: dict(t, g=[g[0], g[1] + d] if g[0] in ("SO2", "O2") else g)),
            {"rep": s_rep, "restrict": s_restrict, "irreps": s_irr}[k](),
            reps(g, maxsize=10, depth=1, restricted=False).map(lambda r: dict(t, r=r)) if k != "irreps" else s_irr(),
            subgroup_ids(g, 6).map(lambda s: dict(t, s=s)) if k == "restrict" else s_restrict())
    sp = t["sp"]
    opts = []
    if "axis" in sp:
        opts += [axes().map(lambda a: dict(t, sp=dict(sp, axis=a)))] * 2
    if "m" in sp:
        opts.append(st.integers(1, 3).map(lambda d: dict(t, sp=dict(sp, m=sp["m"] + d))))
    gs = gspec(sp)

    def tweak(**kw):
        return st.fixed_dictionaries(kw).map(lambda d: dict(t, **d))
    if k == "kernel":
        n = len(t["rings"])
        opts += [tweak(sigma=st.lists(st.sampled_from([0.3, 0.6, 1.0]), min_size=n, max_size=n)),
                 tweak(rings=st.lists(st.sampled_from([0.0, 1.0, 1.5, 2.0]), min_size=n, max_size=n)),
                 tweak(mf=st.integers(0, 5)), tweak(mo=st.one_of(st.none(), st.integers(0, 2))),
                 tweak(i=s_in(gs)), tweak(o=s_in(gs)), s_kernel(sp)]
    elif k == "diffop":
        opts += [tweak(mp=st.integers(0, 2)), tweak(ao=st.sampled_from([None, 0.3, PI / 4])), tweak(mf=st.integers(0, 3)),
                 tweak(mo=st.one_of(st.none(), st.integers(0, 1))), tweak(pad=st.integers(0, 2)), tweak(i=s_in(gs, 4)),
                 tweak(o=s_in(gs, 4)), s_diffop(sp), st.sampled_from(["store", "load"]).map(lambda h: {"op": "disk", "how": h})]
    else:
        f = s_fields(gs)
        kind = "pdo" if k == "pdo" else "conv"
        opts += [tweak(fco=st.sampled_from([-1.0, -2.0, -3.0, 1, 2])), tweak(sigma=st.sampled_from([None, 0.5, 1.0])),
                 tweak(rings=st.sampled_from([None, [0.0, 1.0], [0.0, 0.7]])) if kind == "conv" else
                 tweak(ao=st.sampled_from([None, 0.3, PI / 4])), tweak(ks=st.sampled_from([3, 5])),
                 tweak(dil=st.sampled_from([1, 2])), tweak(init=st.sampled_from(["", "cache", "nocache"])),
                 tweak(acc=st.sampled_from([None, 1, 2])) if kind == "pdo" else tweak(op=st.sampled_from(["conv", "convT"])),
                 tweak(**{"is": f}), tweak(os=f), s_layer(sp),
                 st.sampled_from(["double", "load", "zero", "evaltrain"]).map(lambda h: {"op": "disturb", "how": h, "layer": t}),
                 st.sampled_from(["double", "load", "zero"]).map(lambda h: {"op": "disturb", "how": h, "layer": t})]
        if kind == "pdo":
            opts.append(st.sampled_from(["store", "load"]).map(lambda h: {"op": "disk", "how": h}))
    return st.one_of(*opts)


def hist(targets):
    def f(t):
        return st.lists(st.one_of(variants(t), variants(t).flatmap(lambda u: variants(u) if u["op"] == t["op"] else st.just(u))),
                        min_size=1, max_size=5).map(lambda h: {"t": t, "h": h})
    return targets.flatmap(f)


def s_groups():
    L()
    return hist(st.one_of(s_rep(), s_restrict(), s_irr()))


def s_bases():
    L()
    return hist(spaces(**SP).flatmap(lambda sp: st.one_of(s_kernel(sp), s_diffop(sp))))


def s_layers():
    L()
    return hist(spaces(**SP).flatmap(lambda sp: s_layer(sp)))


FACETS = [
    Facet("groups", s_groups, c_hist, 500, fork=False, rule="history has a request of the target's kind"),
    Facet("bases", s_bases, c_hist, 600, fork=False, rule="target has a value and history has a request of its kind"),
    Facet("layers", s_layers, c_hist, 600, fork=False, rule="target has a value and history has a request of its kind or disturbs another layer"),
]
