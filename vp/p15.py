"""P15: batch normalisation and dropout respect fields, statistics and symmetry."""
import copy
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (repeated, homonyms, SEED, L, spaces, gspec, ftype, gtl as gt, rng, weighted, el, elements, rep_size, irreps, leaf_reps, reps,
                  subgroup_ids, sub_spec, order, rep)
from .ref import same, arr, fiber
from .p14 import accepted, blocks, cobs, sums

RULE = "non-trivial: at least one training batch was seen before the last evaluation and a tested element acts non-trivially"


def nontriv(gs):
    return irreps(gs).filter(lambda r: any(r[1:]))


def has_nontriv(gs):
    from .gen import irrep_ids
    return len(irrep_ids(gs)) > 1


def ind_nontriv(gs):
    if gs[0] == "SO2":
        return None
    if gs[0] == "O2":
        return st.integers(1, max(1, gs[1])).map(lambda k: ["ind", [None, -1], [k]])
    return subgroup_ids(gs).filter(lambda s: has_nontriv(sub_spec(gs, s))).flatmap(
        lambda s: nontriv(sub_spec(gs, s)).map(lambda i: ["ind", s, i[1:]]))


def fields(gs, kind):
    if kind == "inner":
        s = accepted(gs, "pointwise")
    elif kind == "norm":
        s = nontriv(gs)
        i = ind_nontriv(gs)
        if i is not None:
            s = weighted((2, s), (1, i))
        s = sums(cobs(s, ["perm", "orth", "sign"]), 8, gs)
    elif kind == "induced":
        s = ind_nontriv(gs).filter(lambda r: rep_size(gs, r) <= 12)
    else:
        s = reps(gs, maxsize=7, depth=1)
    return homonyms(repeated(gs, st.lists(s, min_size=1, max_size=5), 20))


BATCH = st.tuples(st.just("batch"), SEED, st.integers(1, 4), st.integers(1, 3), st.integers(1, 3)).filter(
    lambda t: t[2] * t[3] * t[4] > 1).map(list)
STEP = weighted((5, BATCH), (3, st.tuples(st.just("eval"), SEED, st.integers(1, 3), st.integers(1, 3)).map(list)),
                (2, st.tuples(st.just("params"), SEED).map(list)), (1, st.just(["reset_running_stats"])), (1, st.just(["reset_parameters"])),
                (1, st.just(["copy"])), (1, st.just(["save"])))


def s_bn(kind):
    def ok(sp):
        gs = gspec(sp)
        if kind == "norm":
            return has_nontriv(gs)
        if kind == "induced":
            return gs[0] != "SO2" and has_nontriv(gs)
        return True

    def f():
        return spaces(maxN=8, maxm=3).filter(ok).flatmap(lambda sp: st.fixed_dictionaries({
            "sp": st.just(sp), "rs": fields(gspec(sp), kind), "eps": st.sampled_from([1e-5, 1e-5, 1e-2]),
            "momentum": st.sampled_from([0.1, 0.1, 0.5, None, 1.0]), "affine": st.sampled_from([True, True, False]),
            "track": st.sampled_from([True, True, True, False]) if kind == "inner" else st.just(True),
            "hist": st.lists(STEP, min_size=1, max_size=7), "es": st.lists(elements(gspec(sp)), min_size=1, max_size=2)}))
    return f


class Units:
    """the groups of coordinates which share one scale (and possibly one mean)"""

    def __init__(self, ft, kind):
        self.D, self.Di, self.units = [], [], []
        for a, b, r in blocks(ft):
            if kind == "gnorm":
                self.D.append(np.asarray(r.change_of_basis, float))
                self.Di.append(np.asarray(r.change_of_basis_inv, float))
                p = a
                for i in r.irreps:
                    irr = r.group.irreps[i]
                    self.units.append((p, p + irr.size, irr.is_trivial()))
                    p += irr.size
            else:
                self.D.append(np.eye(r.size))
                self.Di.append(np.eye(r.size))
                self.units.append((a, b, kind == "inner"))
        n = sum(len(d) for d in self.D)
        self.M, self.Mi = np.zeros((n, n)), np.zeros((n, n))
        p = 0
        for d, di in zip(self.D, self.Di):
            k = len(d)
            self.M[p:p + k, p:p + k], self.Mi[p:p + k, p:p + k] = d, di
            p += k

    def stats(self, x, kind):
        """batch statistics [mean, biased var, unbiased var] of every unit"""
        z = np.einsum("ij,bjhw->bihw", self.Mi, x.astype(np.float64))
        out = []
        for a, b, mean in self.units:
            v = z[:, a:b].reshape(-1) if kind == "inner" else z[:, a:b]
            m = v.mean() if mean else 0.0
            N = v.size if kind == "inner" else v.size // (b - a)
            if kind == "induced":
                N = None
            s = ((v - m) ** 2).mean()
            out.append((m, s, N))
        return out


def affine_map(m, ft):
    """the map computed in evaluation mode, as A x + b, without touching the module"""
    t = L()["torch"]
    n = ft.size
    x = np.zeros((n + 1, n, 1, 1), np.float32)
    x[1:, :, 0, 0] = np.eye(n)
    was = m.training
    m.eval()
    with t.no_grad():
        y = arr(m(gt(x, ft)))[:, :, 0, 0]
    m.train(was)
    return (y[1:] - y[0]).T, y[0]


def c_bn(c, kind):
    n, t = L()["n"], L()["torch"]
    sp = c["sp"]
    gs = gspec(sp)
    ft = ftype(sp, c["rs"])
    cls = {"inner": n.InnerBatchNorm, "norm": n.NormBatchNorm, "induced": n.InducedNormBatchNorm, "gnorm": n.GNormBatchNorm}[kind]
    kw = {"eps": c["eps"], "momentum": c["momentum"], "affine": c["affine"]}
    if kind == "inner":
        kw["track_running_stats"] = c["track"]

    def new():
        return cls(ft, **kw)
    m = new()
    what = cls.__name__
    need(m.in_type == ft and m.out_type == ft, "%s: declared types" % what)
    U = Units(ft, kind)
    nu = len(U.units)
    eps = c["eps"]
    subs = [next((int(s.split("_")[-1]) for s in r.supported_nonlinearities if s.startswith("induced_norm")), None)
            for r in ft.representations]

    # ---- model state
    S = {"var": [1.0] * nu, "mean": [0.0] * nu, "k": 0, "w": [1.0] * nu, "b": [0.0] * nu}

    def model_eval(S, x, stats=None):
        z = np.einsum("ij,bjhw->bihw", U.Mi, x.astype(np.float64))
        out = np.zeros_like(z)
        for q, (a, b, mean) in enumerate(U.units):
            mu, va = (S["mean"][q], S["var"][q]) if stats is None else stats[q]
            out[:, a:b] = (z[:, a:b] - mu) / np.sqrt(va + eps) * S["w"][q] + S["b"][q]
        return np.einsum("ij,bjhw->bihw", U.M, out)

    # ---- which parameter acts on which unit: found by looking at the evaluation map
    def owners():
        W, Bi = {}, {}
        p = copy.deepcopy(m)
        with t.no_grad():
            A0, b0 = affine_map(p, ft)
            for name, par in p.named_parameters():
                for k in range(par.numel()):
                    v = par.view(-1)[k].item()
                    par.view(-1)[k] = v + 1.0
                    A, b = affine_map(p, ft)
                    par.view(-1)[k] = v
                    dA, db = U.Mi @ (A - A0) @ U.M, U.Mi @ (b - b0)
                    off = np.abs(dA - np.diag(np.diag(dA))).max()
                    need(off < 1e-3, lambda: "%s: weight %s[%d] mixes coordinates" % (what, name, k))
                    hw = [q for q, (x, y, _) in enumerate(U.units) if np.abs(np.diag(dA)[x:y]).max() > 1e-3]
                    hb = [q for q, (x, y, _) in enumerate(U.units) if np.abs(db[x:y]).max() > 1e-3]
                    if hw:
                        need(len(hw) == 1 and hw[0] not in W, lambda: "%s: parameter %s[%d] scales units %s" % (what, name, k, hw))
                        W[hw[0]] = (name, k)
                    else:
                        need(len(hb) == 1 and hb[0] not in Bi, lambda: "%s: parameter %s[%d] shifts units %s" % (what, name, k, hb))
                        Bi[hb[0]] = (name, k)
        return W, Bi
    if c["track"]:
        W, Bi = owners()
        if c["affine"]:
            need(len(W) == nu, lambda: "%s: %d scales for %d units" % (what, len(W), nu))
            need(sorted(Bi) == [q for q, u in enumerate(U.units) if u[2]], lambda: "%s: shifts of units %s" % (what, sorted(Bi)))
        else:
            need(not W and not Bi, "%s(affine=False) has parameters" % what)
    else:
        W, Bi = {}, {}

    def read(S):
        ps = dict(m.named_parameters())
        for d, key, one in ((W, "w", 1.0), (Bi, "b", 0.0)):
            S[key] = [one] * nu
            for q, (name, k) in d.items():
                S[key][q] = ps[name].view(-1)[k].item()

    def check_state(when):
        if not c["track"]:
            return
        A, b = affine_map(m, ft)
        wA = U.M @ np.diag(np.concatenate([[S["w"][q] / np.sqrt(S["var"][q] + eps)] * (u[1] - u[0]) for q, u in enumerate(U.units)])) @ U.Mi
        sh = np.concatenate([[S["b"][q] - S["mean"][q] * S["w"][q] / np.sqrt(S["var"][q] + eps)] * (u[1] - u[0]) for q, u in enumerate(U.units)])
        same(A, wA, "%s: scales %s" % (what, when), 2e-3, scale=max(1e-3, np.abs(wA).max()))
        same(b, U.M @ sh, "%s: shifts %s" % (what, when), 2e-3, scale=max(1.0, np.abs(wA).max(), np.abs(sh).max()))

    def data(seed, B, H, W_):
        g = rng(seed)
        x = g.standard_normal((B, ft.size, H, W_)) * g.choice([0.3, 1.0, 3.0], size=(1, ft.size, 1, 1)) + g.choice([0.0, 0.0, 1.0, -2.0, 60.0], size=(1, ft.size, 1, 1))
        return x.astype(np.float32)
    trained = False
    nt = False
    check_state("of a new module")
    for i, op in enumerate(c["hist"]):
        when = "after step %d (%s)" % (i, op[0])
        if op[0] == "batch":
            x = data(*op[1:])
            m.train()
            before = copy.deepcopy(m)
            X = gt(x, ft)
            y = m(X)
            same(X, x, "%s: its input" % what, 0)
            need(y.type == ft, "%s: output type" % what)
            st_ = U.stats(x, kind)
            S["k"] += 1
            f = 1.0 / S["k"] if c["momentum"] is None else c["momentum"]
            if not c["track"]:
                f = 0.0
            tr = []
            for q, (mu, s, N) in enumerate(st_):
                if kind == "induced":
                    N = x.shape[0] * x.shape[2] * x.shape[3] * (ft.representations[q].size // subs[q])
                un = s * (N / (N - 1) if N > 1 else 1.0)
                S["var"][q] = (1 - f) * S["var"][q] + f * un
                S["mean"][q] = (1 - f) * S["mean"][q] + f * mu
                tr.append((mu, s) if kind == "inner" else (mu, un))
            # batch statistics in training (norm and induced norm scale by the updated running variance)
            want = model_eval(S, x, tr if kind in ("inner", "gnorm") else None)
            same(y, want, "%s: training output %s" % (what, when), 3e-3, scale=max(1.0, np.abs(want).max()))
            trained = True
            check_state(when)
            for e in c["es"]:
                g = el(gs, e)
                gx = fiber(ft.representations, g, x.astype(np.float64))
                m2 = copy.deepcopy(before)
                y2 = m2(gt(gx, ft))
                same(y2, fiber(ft.representations, g, arr(y)), "%s: training equivariance under %r" % (what, e), 3e-3,
                     scale=max(1.0, np.abs(arr(y)).max()))
                if c["track"]:
                    A, b = affine_map(m, ft)
                    A2, b2 = affine_map(m2, ft)
                    same(A2, A, "%s: statistics after a batch transformed by %r" % (what, e), 3e-3, scale=max(1e-3, np.abs(A).max()))
                    same(b2, b, "%s: running means after a batch transformed by %r" % (what, e), 3e-3, scale=max(1.0, np.abs(A).max(), np.abs(b).max()))
                nt = nt or np.abs(gx - x).max() > 1e-3
        elif op[0] == "eval":
            x = data(op[1], max(2, op[2]), op[3], 2)
            m.eval()
            sd = {k: v.clone() for k, v in m.state_dict().items()}
            y = m(gt(x, ft))
            want = model_eval(S, x, None if c["track"] else [(mu, s) for mu, s, N in U.stats(x, kind)])
            same(y, want, "%s: evaluation output %s" % (what, when), 3e-3, scale=max(1.0, np.abs(want).max()))
            same(m(gt(x, ft)), y, "%s: repeated evaluation" % what, 0)
            for k, v in m.state_dict().items():
                need(t.equal(v, sd[k]), "%s: evaluating changed %s" % (what, k))
            for e in c["es"]:
                g = el(gs, e)
                same(m(gt(fiber(ft.representations, g, x.astype(np.float64)), ft)), fiber(ft.representations, g, arr(y)),
                     "%s: evaluation equivariance under %r" % (what, e), 1e-3, scale=max(1.0, np.abs(arr(y)).max()))
        elif op[0] == "params":
            if not c["track"]:
                continue  # (the owners of the parameters are read off the evaluation map)
            g = rng(op[1])
            with t.no_grad():
                for name, par in m.named_parameters():
                    par.copy_(t.tensor(g.uniform(0.3, 2.0, size=tuple(par.shape)) * g.choice([-1.0, 1.0], size=tuple(par.shape)), dtype=par.dtype))
            read(S)
        elif op[0] == "reset_running_stats":
            m.reset_running_stats()
            S.update(var=[1.0] * nu, mean=[0.0] * nu, k=0)
        elif op[0] == "reset_parameters":
            m.reset_parameters()
            S.update(var=[1.0] * nu, mean=[0.0] * nu, k=0)
            read(S)
            if kind != "norm":  # this one draws random scales
                need(S["w"] == [1.0] * nu and S["b"] == [0.0] * nu, "%s: reset_parameters did not restore the initial ones" % what)
        elif op[0] == "copy":
            m = copy.deepcopy(m)
        elif op[0] == "save":
            sd = m.state_dict()
            m2 = new()
            m2.load_state_dict(sd)
            m2.train(m.training)
            m = m2
        check_state(when)
    return trained and nt


def bn(kind):
    return lambda c: c_bn(c, kind)


# ---- dropout -----------------------------------------------------------------------------------------------------
def s_drop():
    def f(sp):
        gs = gspec(sp)
        a = lambda kind: st.fixed_dictionaries({
            "sp": st.just(sp), "kind": st.just(kind), "rs": fields(gs, "inner" if kind == "point" else "gnorm"),
            "p": st.sampled_from([0.0, 0.1, 0.5, 0.5, 0.8, 1.0]), "inplace": st.booleans(), "seed": SEED,
            "shape": st.tuples(st.integers(1, 6), st.integers(1, 3), st.integers(1, 3)).map(list), "e": elements(gs)})
        return st.one_of(a("field"), a("field"), a("point"))
    return spaces(maxN=6, maxm=3).flatmap(f)


def masks(y, x, ft, kind, p, what):
    """kept / dropped decision of every unit; checks that units are dropped or rescaled as a whole"""
    out = []
    k = 1.0 / (1.0 - p) if p < 1 else 0.0
    for a, b, r in blocks(ft):
        yy, xx = y[:, a:b].astype(np.float64), x[:, a:b].astype(np.float64)
        zero, kept = yy == 0, np.abs(yy - k * xx) <= 1e-5 * np.maximum(1.0, np.abs(k * xx))
        need((zero | kept).all(), "%s: an entry is neither dropped nor rescaled by 1/(1-p)" % what)
        if kind == "field":
            need((zero.all(1) | kept.all(1)).all(), "%s: part of a field was dropped" % what)
            out.append(kept.all(1) if p < 1 else np.zeros_like(kept[:, 0]))
        else:
            out.append(kept if p < 1 else np.zeros_like(kept))
    return out


def c_drop(c):
    n, t = L()["n"], L()["torch"]
    sp = c["sp"]
    gs = gspec(sp)
    ft = ftype(sp, c["rs"])
    p = c["p"]
    cls = n.FieldDropout if c["kind"] == "field" else n.PointwiseDropout
    m = cls(ft, p=p, inplace=c["inplace"])
    what = "%s(p=%s, inplace=%s)" % (cls.__name__, p, c["inplace"])
    need(m.in_type == ft and m.out_type == ft, "%s: declared types" % what)
    B, H, W = c["shape"]
    g = rng(c["seed"])
    x = (g.uniform(0.5, 2.0, (B, ft.size, H, W)) * g.choice([-1, 1], (B, ft.size, H, W))).astype(np.float32)
    m.eval()
    same(m(gt(x, ft)), x, "%s: evaluation" % what, 0)
    m.train()
    t.manual_seed(c["seed"])
    X = gt(x, ft)
    y = m(X)
    need(y.type == ft, "%s: output type" % what)
    Y = arr(y)
    if c["inplace"]:
        same(X, Y, "%s: the input tensor" % what, 0)
    else:
        same(X, x, "%s: its input" % what, 0)
    masks(Y, x, ft, c["kind"], p, what)
    if p == 0:
        same(Y, x, what, 1e-7)
    if p == 1:
        need(not Y.any(), "%s: not everything was dropped" % what)
    if c["kind"] == "field":
        e = el(gs, c["e"])
        t.manual_seed(c["seed"])
        y2 = m(gt(fiber(ft.representations, e, x.astype(np.float64)), ft))
        same(y2, fiber(ft.representations, e, Y), "%s: equivariance under %r with the same random choices" % (what, c["e"]), 1e-4,
             scale=max(1.0, np.abs(Y).max()))
    return 0 < p < 1 and len(ft) > 1


def s_rate():
    return spaces(maxN=5, maxm=2).flatmap(lambda sp: st.sampled_from(["field", "point"]).flatmap(lambda kind: st.fixed_dictionaries({
        "sp": st.just(sp), "kind": st.just(kind), "rs": fields(gspec(sp), "inner" if kind == "point" else "gnorm"),
        "p": st.sampled_from([0.05, 0.3, 0.5, 0.75, 0.95]), "seed": SEED, "inplace": st.booleans()})))


def c_rate(c):
    """frequencies over many samples: 6 sigma, with each (sample, field) counted as one draw"""
    n, t = L()["n"], L()["torch"]
    ft = ftype(c["sp"], c["rs"])
    p = c["p"]
    cls = n.FieldDropout if c["kind"] == "field" else n.PointwiseDropout
    m = cls(ft, p=p, inplace=c["inplace"])
    what = "%s(p=%s)" % (cls.__name__, p)
    B = 1500
    x = np.ones((B, ft.size, 1, 2), np.float32)
    t.manual_seed(c["seed"])
    ks = masks(arr(m(gt(x, ft))), x, ft, c["kind"], p, what)
    q = 1 - p
    flat = [k.reshape(B, -1).astype(float) for k in ks]
    for i, k in enumerate(flat):
        tol = 6 * np.sqrt(q * p / B)
        need(abs(k.mean() - q) < tol, lambda: "%s: field %d kept with frequency %.4f, expected %.4f" % (what, i, k.mean(), q))
    cols = [k[:, j] for k in flat for j in ([0] if c["kind"] == "field" else range(0, k.shape[1], 2))]
    for i in range(len(cols)):
        for j in range(i):
            co = np.mean(cols[i] * cols[j])
            sd = np.sqrt(max(q * q * (1 - q * q), 1e-4) / B)
            need(abs(co - q * q) < 7 * sd, lambda: "%s: drops of units %d and %d are not independent (%.3f, expected %.3f)" % (what, j, i, co, q * q))
    return len(cols) > 1


FACETS = [Facet("inner", s_bn("inner"), bn("inner"), 400, rule=RULE), Facet("norm", s_bn("norm"), bn("norm"), 400, rule=RULE),
          Facet("induced_norm", s_bn("induced"), bn("induced"), 400, rule=RULE), Facet("gnorm", s_bn("gnorm"), bn("gnorm"), 400, rule=RULE),
          Facet("dropout", s_drop, c_drop, 1500, rule="0 < p < 1 and several fields"), Facet("rates", s_rate, c_rate, 300, rule="several fields")]
