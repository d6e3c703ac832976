"""P07: differential-operator bases are equivariant, independent, complete and exactly discretised."""
import math
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import reps, rep, rep_size, order, SEED, L, spaces, space, gspec, el, elements, test_elements, rng, PI, weighted
from .ref import same, ref_rep, plane, rank_of, R
from .p06 import angular_dim

RULE = "non-trivial: at least two operators over a space that moves the plane; stencils of positive order."


def evalpoly(C, P):
    """C: [o, i, n+1] coefficients of x^n, x^(n-1) y, ..., y^n;  P: [2, p]  ->  [o, i, p]"""
    n = C.shape[-1] - 1
    mono = np.stack([P[0] ** (n - k) * P[1] ** k for k in range(n + 1)])
    return np.einsum("oik,kp->oip", C, mono)


def s_basis():
    def f(sp):
        gs = gspec(sp)
        r = reps(gs, maxsize=5, depth=2)
        return st.fixed_dictionaries({
            "sp": st.just(sp), "i": r, "o": r, "F": st.integers(0, 5), "P": st.integers(0, 2),
            "mo": weighted((5, st.none()), (2, st.integers(0, 2)), (1, st.just(50))), "only_mo": st.booleans(),
            "e": st.lists(elements(gs), min_size=1, max_size=3), "seed": SEED}).filter(
            lambda c: rep_size(gs, c["i"]) * rep_size(gs, c["o"]) <= 12)
    return spaces(maxN=9, maxm=3).flatmap(f)


def c_basis(c):
    sp = c["sp"]
    gs = gspec(sp)
    S = space(sp)
    cont = gs[0] in ("SO2", "O2")
    ri, ro = rep(gs, c["i"], S.fibergroup), rep(gs, c["o"], S.fibergroup)
    F, Pw = c["F"], c["P"]
    kw = {"maximum_frequency": F}
    exact = True
    if c["mo"] is not None:
        kw["maximum_offset"] = c["mo"]
        exact = c["mo"] >= 50
        if c["only_mo"] and c["mo"] < 50:
            del kw["maximum_frequency"]
    if cont:
        exact, F = True, 2 * gs[1]
    expect = angular_dim(sp, c["i"], c["o"], F) * (Pw + 1)
    what = "operator basis of %s for %s -> %s with %s, power %d" % (sp, c["i"], c["o"], kw, Pw)
    try:
        B = S.build_diffop_basis(ri, ro, max_power=Pw, discretization=L()["d"].DiscretizationArgs(), **kw)
    except L()["k"].EmptyBasisException:
        need(not exact or expect == 0, lambda: "%s is empty but %d independent operators exist" % (what, expect))
        return False
    dim = B.dim
    need(len(B) == dim and len(B.coefficients) == dim, "%s: len(), dim and coefficients differ" % what)
    g = rng(c["seed"])
    pts = g.uniform(-1, 1, size=(2, 40))
    vals = [evalpoly(np.asarray(C), pts) for C in B.coefficients]
    need(all(v.shape[:2] == (ro.size, ri.size) for v in vals), "%s: operator shape" % what)
    for e in c["e"] + (test_elements(gs)[:6] if order(gs) != 1 else []):
        A = plane(sp, e)
        O, I = ref_rep(gs, c["o"], e), np.linalg.inv(ref_rep(gs, c["i"], e))
        for k, C in enumerate(B.coefficients):
            same(evalpoly(np.asarray(C), A @ pts), np.einsum("ab,bcp,ce->aep", O, vals[k], I),
                 "%s: operator %d transforms under %r" % (what, k, e), 1e-6)
    M = np.stack([v.ravel() for v in vals])
    nrm = np.linalg.norm(M, axis=1)
    need(nrm.min() > 1e-9, "%s: an operator is zero" % what)
    orders = [np.asarray(C).shape[-1] - 1 for C in B.coefficients]
    for d in sorted(set(orders)):
        idx = [k for k in range(dim) if orders[k] == d]
        X = M[idx] / nrm[idx][:, None]
        rk = rank_of(X, 1e-8)
        need(rk == len(idx), lambda: "%s: %d operators of order %d have rank %d" % (what, len(idx), d, rk))
        if exact and (cont or d <= F) and d // 2 <= Pw:
            fr = [m for m in range(d % 2, d + 1, 2)]
            full = angular_dim(sp, c["i"], c["o"], d, fr)
            need(full == len(idx), lambda: "%s: %d operators of order %d, but %d exist" % (what, len(idx), d, full))
    if exact:
        need(dim == expect, lambda: "%s: %d operators, expected %d" % (what, dim, expect))
    infos = list(B)
    need(len(infos) == dim, "%s: iterating gives %d descriptions" % (what, len(infos)))
    for k, a in enumerate(infos):
        need(a["idx"] == k and a["order"] == orders[k], lambda: "%s: description of operator %d: %s" % (what, k, a))
        d2 = B[k]
        need(d2.keys() == a.keys() and all(np.all(d2[q] == a[q]) for q in a), lambda: "%s: B[%d] and iteration disagree" % (what, k))
        if "maximum_frequency" in kw and not cont:
            need(abs(a["frequency"]) <= kw["maximum_frequency"], "%s: frequency limit" % what)
    need(B.maximum_order == max(orders), "%s: maximum_order" % what)
    return dim >= 2 and sp["k"] != "triv"


# ---- stencils ---------------------------------------------------------------------------------------------------
def s_stencil():
    def f(sp):
        gs = gspec(sp)
        r = reps(gs, maxsize=3, depth=1)
        return st.fixed_dictionaries({
            "sp": st.just(sp), "i": r, "o": r, "F": st.integers(0, 3), "P": st.integers(0, 1), "extra": st.integers(0, 3),
            "h": st.sampled_from([1, 1, 2, 3, 0.5]), "ao": st.sampled_from([None, None, 0.4, PI / 2, -1.1]), "seed": SEED})
    return spaces(maxN=6, maxm=2).flatmap(f)


def grid(n, h):
    ax = (np.arange(n) - (n - 1) / 2) * h
    return np.stack(np.meshgrid(ax, -ax)).reshape(2, -1)


def check_stencil(C, st_, P, h, what):
    """C [o,i,d+1], st_ [o,i,p]: the stencil differentiates every monomial x^a y^b, a, b < n, exactly at the centre"""
    n = int(round(math.sqrt(P.shape[1])))
    d = C.shape[-1] - 1
    sc = max(1.0, np.abs(P).max())
    for a in range(n):
        for b in range(n):
            mono = (P[0] / sc) ** a * (P[1] / sc) ** b
            got = np.einsum("oip,p->oi", st_, mono)
            want = np.zeros(C.shape[:2])
            if a + b == d:
                want = C[..., b] * math.factorial(a) * math.factorial(b) / sc ** d
            same(got, want, "%s applied to x^%d y^%d" % (what, a, b), 1e-6, scale=max(1.0, np.abs(st_).max(), np.abs(want).max()))


def c_stencil(c):
    sp = c["sp"]
    gs = gspec(sp)
    S = space(sp)
    ri, ro = rep(gs, c["i"], S.fibergroup), rep(gs, c["o"], S.fibergroup)
    try:
        B = S.build_diffop_basis(ri, ro, max_power=c["P"], maximum_frequency=c["F"],
                                 discretization=L()["d"].DiscretizationArgs(angle_offset=c["ao"]))
    except L()["k"].EmptyBasisException:
        return False
    if B.maximum_order > 6:
        return False
    n = B.maximum_order + 1 + c["extra"]
    P = grid(n, c["h"])
    W = B.sample(P)
    what = "stencil of %s for %s -> %s on a %dx%d grid with spacing %s" % (sp, c["i"], c["o"], n, n, c["h"])
    need(W.shape == (ro.size, ri.size, B.dim, n * n), "%s: shape %s" % (what, W.shape))
    g = rng(c["seed"])
    for k in g.permutation(B.dim)[:6]:
        C = np.asarray(B.coefficients[k], float)
        if c["ao"] is not None:
            C = rotate_poly(C, c["ao"])
        check_stencil(C, W[:, :, k], P, c["h"], "%s, operator %d" % (what, k))
    mask = g.random(B.dim) < 0.5
    if mask.any():
        same(B.sample_masked(P, mask), W[:, :, mask], "%s: sample_masked" % what, 1e-9)
    return B.maximum_order >= 1


def rotate_poly(C, t):
    """coefficients of D(R(-t) v), fitted from values"""
    d = C.shape[-1] - 1
    th = np.linspace(0.1, 3.0, 2 * d + 3)
    P = np.stack([np.cos(th), np.sin(th)])
    V = np.stack([P[0] ** (d - k) * P[1] ** k for k in range(d + 1)], axis=1)
    Y = evalpoly(C, R(-t) @ P)
    return np.einsum("kp,oip->oik", np.linalg.pinv(V), Y)


# ---- accuracy of one-dimensional formulas -------------------------------------------------------------------------
def s_acc():
    return st.fixed_dictionaries({"order": st.integers(0, 6), "acc": st.integers(1, 6), "h": st.sampled_from([1, 2, 0.5, 0.1]),
                                  "n": st.integers(1, 11)})


def c_acc(c):
    from e2cnn.diffops import utils as u
    o, a = c["order"], c["acc"]
    n = u.required_points(o, a)
    need(n > o, "required_points(%d, %d) = %d cannot hold the derivative" % (o, a, n))
    pts = u.symmetric_points(n, c["h"])
    need(len(pts) == n and abs(sum(pts)) < 1e-9 and all(abs(y - x - c["h"]) < 1e-9 for x, y in zip(pts, pts[1:])),
         "symmetric_points(%d, %s)" % (n, c["h"]))
    w = np.asarray(u.discretize_1d_monomial(o, pts), float)
    x = np.array(pts) / c["h"]
    w = w * c["h"] ** o
    for d in range(o + a):
        got = float((w * x ** d).sum())
        want = float(math.factorial(o)) if d == o else 0.0
        need(abs(got - want) <= 1e-7 * max(1.0, float((np.abs(w) * np.abs(x) ** d).sum())),
             lambda: "derivative of order %d on %d points is not exact on x^%d (accuracy %d promised): %g instead of %g"
             % (o, n, d, a, got, want))
    # limits are consistent with each other
    N = c["n"]
    if N - a >= 0:
        top = u.largest_possible_order(N, a)
        need(u.required_points(top, a) <= N, lambda: "largest_possible_order(%d, %d) = %d needs %d points" % (N, a, top, u.required_points(top, a)))
        need(u.required_points(top + 1, a) > N, lambda: "largest_possible_order(%d, %d) = %d is not the largest" % (N, a, top))
    if N > o:
        ga = u.guaranteed_accuracy(N, o)
        need(u.required_points(o, ga) <= N, lambda: "guaranteed_accuracy(%d, %d) = %d needs more points" % (N, o, ga))
    return o >= 1


FACETS = [
    Facet("operators", s_basis, c_basis, 3200, rule="two or more operators over a space that moves the plane"),
    Facet("stencils", s_stencil, c_stencil, 1600, rule="stencils of order at least one"),
    Facet("accuracy", s_acc, c_acc, 1600, rule="order at least one"),
]
