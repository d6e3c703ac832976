"""P14: nonlinearities commute with the group action and apply the stated function."""
import math
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (repeated, SEED, L, spaces, space, gspec, ftype, tensor, gtl as gt, PI, rng, weighted, el, elements, rep_size, reps, irreps,
                  leaf_reps, subgroup_ids, sub_spec, order, rep, test_elements, sgid)
from .ref import same, arr, ref_rep, blockdiag, fiber, rejects

RULE = "non-trivial: the tested group elements do not act trivially on the input fibers."


# ---- field types a nonlinearity accepts --------------------------------------------------------------------------
def sums(s, size, gs):
    return weighted((3, s), (1, st.lists(s, min_size=1, max_size=3).map(lambda l: ["sum", l]))).filter(lambda r: rep_size(gs, r) <= size)


def cobs(s, kinds):
    return weighted((4, s), (1, st.tuples(st.sampled_from(kinds), SEED, s).map(lambda t: ["cob"] + list(t))))


def ind_reps(gs):
    """induced (and quotient) representations"""
    if gs[0] == "O2":
        return st.integers(0, gs[1]).map(lambda k: ["ind", [None, -1], [k]])
    if gs[0] == "SO2":
        return None
    return st.one_of(subgroup_ids(gs).flatmap(lambda s: irreps(sub_spec(gs, s)).map(lambda i: ["ind", s, i[1:]])),
                     subgroup_ids(gs).map(lambda s: ["quo", s]))


def accepted(gs, kind, size=8):
    fin = order(gs) > 0
    if kind == "pointwise":
        # a change of the permuted coordinates keeps a permutation representation one
        s = leaf_reps(gs, perm=True)
        return sums(cobs(s, ["perm"]), size, gs)
    if kind == "norm":
        s = irreps(gs)
        if fin:
            s = weighted((2, s), (1, leaf_reps(gs)))
        elif gs[0] == "O2":
            s = weighted((2, s), (1, ind_reps(gs)))
        return sums(cobs(s, ["perm", "orth", "sign"]), size, gs)
    if kind == "gated":
        s = leaf_reps(gs) if fin else irreps(gs)
        return sums(cobs(s, ["perm", "orth", "sign"]), size, gs)
    if kind == "concatenated":
        sgn = irreps(gs).filter(lambda r: rep_size(gs, r) == 1)
        ind = subgroup_ids(gs).flatmap(lambda s: irreps(sub_spec(gs, s)).filter(
            lambda i: rep_size(sub_spec(gs, s), i) == 1).map(lambda i: ["ind", s, i[1:]]))
        return sums(cobs(st.one_of(sgn, ind, leaf_reps(gs, perm=True)), ["perm", "sign"]), size, gs)
    if kind == "induced_norm":
        return ind_reps(gs).filter(lambda r: rep_size(gs, r) <= size)
    raise KeyError(kind)


def values(seed, shape):
    """values with exact zeros, repeated values and several magnitudes"""
    g = rng(seed)
    x = g.standard_normal(shape) * g.choice([0.3, 1.0, 1.0, 4.0], size=(shape[0], 1) + tuple(shape[2:]))
    if seed % 3 == 0:
        x = x * (g.random((shape[0], 1) + tuple(shape[2:])) < 0.7)
    return x.astype(np.float32)


def blocks(ft):
    p = 0
    for r in ft.representations:
        yield p, p + r.size, r
        p += r.size


def set_params(m, seed, names=("log_bias", "bias")):
    t = L()["torch"]
    g = rng(seed + 5)
    with t.no_grad():
        for k, p in m.named_parameters():
            if k.split(".")[-1] in names:
                p.copy_(t.tensor(g.standard_normal(tuple(p.shape)), dtype=p.dtype))


def equivariant(m, gs, ft, x, y, es, what, tol=1e-4, call=None):
    """f(in(g) x) = out(g) f(x)"""
    t = L()["torch"]
    call = call or (lambda z: m(gt(z, ft)))
    nt = False
    for e in es:
        g = el(gs, e)
        gx = fiber(ft.representations, g, x.astype(np.float64))
        gy = fiber(m.out_type.representations, g, arr(y))
        with t.no_grad():
            same(call(gx), gy, "%s: equivariance under %r" % (what, e), tol, scale=max(1.0, np.abs(arr(y)).max(), np.abs(x).max()))
        nt = nt or np.abs(gx - x).max() > 1e-3
    return nt


ELU = lambda v, a=1.0: np.where(v > 0, v, a * (np.exp(np.minimum(v, 0)) - 1))
SIG = lambda v: 1 / (1 + np.exp(-v))
FUN = {"relu": lambda v: np.maximum(v, 0), "elu": ELU, "sigmoid": SIG, "tanh": np.tanh, "squash": lambda v: v / (1 + v)}


# ---- pointwise ---------------------------------------------------------------------------------------------------
def base(sp, fields, extra):
    d = {"sp": st.just(sp), "rs": fields, "seed": SEED, "x": SEED, "shape": st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3)).map(list),
         "es": st.lists(elements(gspec(sp)), min_size=2, max_size=4)}
    d.update(extra)
    return st.fixed_dictionaries(d)


def flist(gs, kind, n=4, total=20):
    return repeated(gs, st.lists(accepted(gs, kind), min_size=1, max_size=n), total)


def s_point():
    return spaces(maxN=9, maxm=3).flatmap(lambda sp: base(sp, flist(gspec(sp), "pointwise"), {
        "f": st.sampled_from(["p_relu", "p_elu", "p_sigmoid", "p_tanh", "ReLU", "ReLU", "ELU", "ELU"]),
        "alpha": st.sampled_from([1.0, 0.5, 2.0]), "inplace": st.booleans()}))


def c_point(c):
    gs = gspec(c["sp"])
    ft = ftype(c["sp"], c["rs"])
    n, t = L()["n"], L()["torch"]
    f = c["f"]
    inplace = False
    if f == "ReLU":
        inplace = c["inplace"]
        m, ref = n.ReLU(ft, inplace=inplace), FUN["relu"]
    elif f == "ELU":
        inplace = c["inplace"]
        m, ref = n.ELU(ft, alpha=c["alpha"], inplace=inplace), lambda v: ELU(v, c["alpha"])
    else:
        m, ref = n.PointwiseNonLinearity(ft, function=f), FUN[f[2:]]
    B, H, W = c["shape"]
    x = values(c["x"], (B, ft.size, H, W))
    need(m.in_type == ft and m.out_type == ft, "%s: declared types" % f)
    X = gt(x, ft)
    y = m(X)
    need(y.type == m.out_type, "%s: output type" % f)
    same(y, ref(x.astype(np.float64)), "%s" % f, 1e-5)
    if not inplace:
        same(X, x, "%s: its input" % f, 0)
    else:
        need(y.tensor.data_ptr() == X.tensor.data_ptr(), "%s(inplace=True) did not work in place" % f)
    return equivariant(m, gs, ft, x, y, c["es"], f)


# ---- norms -------------------------------------------------------------------------------------------------------
def s_norm():
    return spaces(maxN=9, maxm=4).flatmap(lambda sp: base(sp, flist(gspec(sp), "norm", 6), {
        "f": st.sampled_from(["n_relu", "n_relu", "n_sigmoid", "squash"]), "bias": st.booleans()}))


def s_inorm():
    return spaces(maxN=8, maxm=3).filter(lambda sp: ind_reps(gspec(sp)) is not None).flatmap(
        lambda sp: base(sp, flist(gspec(sp), "induced_norm", 5), {
            "f": st.sampled_from(["n_relu", "n_relu", "n_sigmoid", "squash"]), "bias": st.booleans()}))


def subsize(r, label):
    for s in r.supported_nonlinearities:
        if s.startswith(label):
            return int(s.split("_")[-1])
    return None


def c_norm(c, induced=False):
    gs = gspec(c["sp"])
    ft = ftype(c["sp"], c["rs"])
    n, t = L()["n"], L()["torch"]
    bias = c["bias"] and c["f"] != "squash"
    m = (n.InducedNormNonLinearity if induced else n.NormNonLinearity)(ft, function=c["f"], bias=bias)
    set_params(m, c["seed"])
    what = "%s %s" % (type(m).__name__, c["f"])
    B, H, W = c["shape"]
    x = values(c["x"], (B, ft.size, H, W))
    X = gt(x, ft)
    with t.no_grad():
        y = m(X)
    need(y.type == ft == m.out_type, "%s: output type" % what)
    same(X, x, "%s: its input" % what, 0)
    F = FUN[c["f"].replace("n_", "")]
    # one bias per field: recover which parameter belongs to which field by looking at what each parameter affects
    nf = len(ft)
    owner = [None] * nf
    Y = arr(y)
    if bias:
        par = m.log_bias
        need(par.numel() == nf, "%s: %d biases for %d fields" % (what, par.numel(), nf))
        probe = 0.6 + rng(c["x"] + 9).random((1, ft.size, 1, 1))
        for a, b, r in blocks(ft):
            k = (subsize(r, "induced_norm") if induced else None) or r.size
            v = probe[:, a:b].reshape(-1, k)
            probe[:, a:b] = (v / np.sqrt((v ** 2).sum(1, keepdims=True))).reshape(1, -1, 1, 1)
        probe = probe.astype(np.float32)
        with t.no_grad():
            par0 = par.detach().clone()
            par.fill_(-1.0)
            y0 = arr(m(gt(probe, ft)))
            for k in range(nf):
                par.fill_(-1.0)
                par.view(-1)[k] = 0.5
                d = np.abs(arr(m(gt(probe, ft))) - y0)[0, :, 0, 0]
                hit = [i for i, (a, b, r) in enumerate(blocks(ft)) if d[a:b].max() > 1e-4]
                need(len(hit) == 1, lambda: "%s: bias %d affects fields %s" % (what, k, hit))
                need(owner[hit[0]] is None, "%s: two biases for field %d" % (what, hit[0]))
                owner[hit[0]] = k
            par.copy_(par0)
        bs = np.exp(par0.detach().numpy().reshape(-1))
    want = np.zeros(x.shape)
    for i, (a, b, r) in enumerate(blocks(ft)):
        k = subsize(r, "induced_norm") if induced else r.size
        need(k is not None and r.size % k == 0, "%s: sub-field size %s of %s" % (what, k, r.name))
        v = x[:, a:b].astype(np.float64).reshape(B, r.size // k, k, H, W)
        nrm = np.sqrt((v ** 2).sum(2, keepdims=True))
        new = F(nrm - (bs[owner[i]] if bias else 0.0))
        mul = np.where(nrm <= 1e-10, 0.0, new / np.maximum(nrm, 1e-10))
        want[:, a:b] = (v * mul).reshape(B, r.size, H, W)
    same(Y, want, what, 2e-5, scale=max(1.0, np.abs(want).max()))
    tol = 1e-4
    return equivariant(m, gs, ft, x, y, c["es"], what, tol)


def c_inorm(c):
    return c_norm(c, True)


# ---- gates -------------------------------------------------------------------------------------------------------
def s_gate():
    def f(sp):
        gs = gspec(sp)
        return flist(gs, "gated", 4).flatmap(lambda rs: base(sp, st.just(rs), {
            "perm": st.permutations(range(2 * len(rs))).map(list), "default": st.booleans(), "drop": st.booleans(),
            "two": st.booleans()}))
    return spaces(maxN=8, maxm=3).flatmap(f)


def s_igate():
    def f(sp):
        gs = gspec(sp)
        if gs[0] == "O2":
            ids = st.just([None, -1])
        else:
            ids = subgroup_ids(gs)
        return ids.flatmap(lambda s: st.lists(irreps(sub_spec(gs, s)).map(lambda i: ["ind", s, i[1:]]), min_size=1, max_size=3).filter(
            lambda rs: sum(rep_size(gs, r) for r in rs) <= 24).flatmap(lambda rs: base(sp, st.just(rs), {
                "id": st.just(s), "perm": st.permutations(range(2 * len(rs))).map(list), "default": st.booleans(),
                "drop": st.booleans(), "gate0": st.booleans()})))
    return spaces(maxN=8, maxm=3).filter(lambda sp: gspec(sp)[0] != "SO2").flatmap(f)


def c_gate(c, induced=False):
    sp = c["sp"]
    gs = gspec(sp)
    n, t = L()["n"], L()["torch"]
    k = len(c["rs"])
    if induced:
        gate = ["ind", c["id"], [0] if sub_spec(gs, c["id"])[0] in ("C", "SO2") else [0, 0]]
        if c["gate0"] and gs[0] != "O2":
            gate = ["quo", c["id"]]
    else:
        gate = ["triv"]
    kinds = ["gate"] * k + ["gated"] * k
    specs = [gate] * k + list(c["rs"])
    if not c["default"]:
        kinds, specs = [kinds[i] for i in c["perm"]], [specs[i] for i in c["perm"]]
    ft = ftype(sp, specs)
    two = c.get("two") and not induced
    kinds0 = list(kinds)
    cls = n.InducedGatedNonLinearity1 if induced else n.GatedNonLinearity1
    what = cls.__name__
    B, H, W = c["shape"]
    if two:
        S = space(sp)
        ga, ty = ftype(sp, [gate] * k, S), ftype(sp, c["rs"], S)
        m = n.GatedNonLinearity2((ga, ty))
        what = "GatedNonLinearity2"
        ft = ga + ty
        kinds, specs = ["gate"] * k + ["gated"] * k, [gate] * k + list(c["rs"])
        call = lambda z: m(gt(z[:, :ga.size], ga), gt(z[:, ga.size:], ty))
        drop = True
    else:
        drop = c["drop"]
        m = cls(ft, gates=None if c["default"] else kinds, drop_gates=drop)
        need(kinds == kinds0, "%s modified its list of gates" % what)
        call = lambda z: m(gt(z, ft))
    set_params(m, c["seed"])
    x = values(c["x"], (B, ft.size, H, W))
    with t.no_grad():
        X = gt(x, ft)
        y = call(x)
        if not two:
            y = m(X)
            same(X, x, "%s: its input" % what, 0)
    need(y.type == m.out_type, "%s: output type" % what)
    outspec = [s for s, q in zip(specs, kinds) if q == "gated" or not drop]
    outkind = [q for q in kinds if q == "gated" or not drop]
    need(list(m.out_type.representations) == list(ftype(sp, outspec).representations), "%s: declared output fields" % what)
    Y = arr(y)
    ib = list(blocks(ft))
    ob = list(blocks(m.out_type))
    gi = [i for i, q in enumerate(kinds) if q == "gate"]
    di = [i for i, q in enumerate(kinds) if q == "gated"]
    og = [j for j, q in enumerate(outkind) if q == "gate"]
    od = [j for j, q in enumerate(outkind) if q == "gated"]
    # which gate drives which field: change one gate and look
    pair = {}
    probe = np.ones((1, ft.size, 1, 1), np.float32)
    with t.no_grad():
        y0 = arr(call(probe))
        for q, i in enumerate(gi):
            p2 = probe.copy()
            p2[:, ib[i][0]:ib[i][1]] = -1.0
            d = np.abs(arr(call(p2)) - y0)[0, :, 0, 0]
            hit = [z for z, j in enumerate(od) if d[ob[j][0]:ob[j][1]].max() > 1e-4]
            need(len(hit) == 1, lambda: "%s: gate %d drives %d fields" % (what, q, len(hit)))
            need(hit[0] not in pair, "%s: field %d has two gates" % (what, hit[0]))
            pair[hit[0]] = q
    b = m.bias.detach().numpy().reshape(-1)
    need(len(b) == k, "%s: %d biases for %d gates" % (what, len(b), k))
    for z, j in enumerate(od):
        q = pair[z]
        i = di[z]
        G = SIG(x[:, ib[gi[q]][0]:ib[gi[q]][1]].astype(np.float64) - b[q])
        v = x[:, ib[i][0]:ib[i][1]].astype(np.float64)
        r = ft.representations[i]
        if induced:
            qs = G.shape[1]
            v = v.reshape(B, qs, r.size // qs, H, W) * G[:, :, None]
        else:
            v = v * G
        same(Y[:, ob[j][0]:ob[j][1]], v.reshape(B, r.size, H, W), "%s: field %d" % (what, z), 2e-5)
    for q, j in enumerate(og):
        same(Y[:, ob[j][0]:ob[j][1]], SIG(x[:, ib[gi[q]][0]:ib[gi[q]][1]].astype(np.float64) - b[q]), "%s: kept gate %d" % (what, q), 2e-5)
    return equivariant(m, gs, ft, x, y, c["es"], what, call=call)


def c_igate(c):
    return c_gate(c, True)


# ---- concatenated, vector field ----------------------------------------------------------------------------------
def s_cat():
    return spaces(maxN=8, continuous=False).flatmap(lambda sp: base(sp, flist(gspec(sp), "concatenated", 3, 14), {
        "f": st.sampled_from(["c_relu", "c_sigmoid", "c_tanh"])}))


def c_cat(c):
    gs = gspec(c["sp"])
    ft = ftype(c["sp"], c["rs"])
    n, t = L()["n"], L()["torch"]
    m = n.ConcatenatedNonLinearity(ft, function=c["f"])
    what = "ConcatenatedNonLinearity %s" % c["f"]
    B, H, W = c["shape"]
    x = values(c["x"], (B, ft.size, H, W))
    X = gt(x, ft)
    y = m(X)
    same(X, x, "%s: its input" % what, 0)
    need(y.type == m.out_type and m.out_type.size == 2 * ft.size, "%s: output type" % what)
    need([r.size for r in m.out_type] == [2 * r.size for r in ft], "%s: output fields" % what)
    F = FUN[c["f"][2:]]
    want = np.stack([F(x.astype(np.float64)), F(-x.astype(np.float64))], axis=2).reshape(B, 2 * ft.size, H, W)
    same(y, want, what, 1e-5)
    nt = equivariant(m, gs, ft, x, y, c["es"], what)
    # the declared output representation is a genuine one, and supports what it says
    for r in set(m.out_type.representations):
        D = np.asarray(r.change_of_basis)
        need(np.abs(D @ D.T - np.eye(r.size)).max() < 1e-5, "%s: change of basis of %s is not orthogonal" % (what, r.name))
        for e in c["es"]:
            M = np.asarray(r(el(gs, e)))
            I = blockdiag([np.asarray(r.group.irreps[i](el(gs, e))) for i in r.irreps])
            need(np.abs(M - D @ I @ D.T).max() < 1e-5, "%s: irrep decomposition of %s" % (what, r.name))
            if "pointwise" in r.supported_nonlinearities:
                need(np.allclose(np.sort(M, axis=1)[:, -1], 1, atol=1e-6) and np.abs(M).sum() < r.size + 1e-4,
                     "%s: output representation %s is not a permutation" % (what, r.name))
    return nt


def s_vec():
    return spaces(maxN=12, continuous=False).filter(lambda sp: sp["k"] in ("rot", "flip")).flatmap(
        lambda sp: base(sp, st.integers(1, 3).map(lambda k: [["reg"]] * k), {}))


def c_vec(c):
    gs = gspec(c["sp"])
    ft = ftype(c["sp"], c["rs"])
    n, t = L()["n"], L()["torch"]
    N = gs[1]
    m = n.VectorFieldNonLinearity(ft)
    B, H, W = c["shape"]
    g = rng(c["x"])
    # well separated values within every field; some fields entirely negative
    x = np.stack([g.permuted(np.broadcast_to(np.arange(N) * 0.5 + 0.1, (B, H, W, N)), axis=-1) for _ in c["rs"]], axis=1)
    x = x - np.where(g.random((B, len(c["rs"]), H, W, 1)) < 0.3, N * 0.5 + 1, N * 0.25)
    x = x.transpose(0, 1, 4, 2, 3).reshape(B, ft.size, H, W).astype(np.float32)
    X = gt(x, ft)
    y = m(X)
    same(X, x, "VectorFieldNonLinearity: its input", 0)
    need(y.type == m.out_type and len(m.out_type) == len(ft), "VectorFieldNonLinearity: output type")
    v = x.reshape(B, len(ft), N, H, W).astype(np.float64)
    k = v.argmax(2)
    a = np.maximum(v.max(2), 0)
    th = 2 * PI * k / N
    want = np.stack([np.cos(th) * a, np.sin(th) * a], axis=2) if N > 2 else (np.cos(th) * a)[:, :, None]
    same(y, want.reshape(B, -1, H, W), "VectorFieldNonLinearity", 1e-4)
    return equivariant(m, gs, ft, x, y, c["es"], "VectorFieldNonLinearity", 1e-3)


FACETS = [Facet("pointwise", s_point, c_point, 1000, rule=RULE), Facet("norm", s_norm, c_norm, 1200, rule=RULE),
          Facet("induced_norm", s_inorm, c_inorm, 1000, rule=RULE), Facet("gated", s_gate, c_gate, 1200, rule=RULE),
          Facet("induced_gated", s_igate, c_igate, 800, rule=RULE), Facet("concatenated", s_cat, c_cat, 800, rule=RULE),
          Facet("vectorfield", s_vec, c_vec, 500, rule=RULE)]
