"""P11: differential-operator layers are equivariant and differentiate correctly."""
import math
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import SEED, L, spaces, space, gspec, ftype, tensor, gt, PI, rng, weighted, el, rep_size, test_elements, order
from .ref import same, plane, arr, ref_rep, rank_of, R
from . import layers as ly
from .p10 import check_layer
from .p06 import angular_dim

RULE = "non-trivial: the layer has at least two weights and some tested element moves the grid."
RULE_D = "non-trivial: the layer has weights of two different orders or several operators of positive order."


def sps():
    return weighted((3, spaces(Ns=[4, 8, 2, 4], grid_axes=True, maxm=3)), (1, spaces(maxN=8, maxm=3)))


def s_layer():
    return sps().flatmap(lambda sp: st.fixed_dictionaries({"l": ly.diff_specs(sp), "n": st.integers(0, 3), "xs": SEED,
                                                           "sel": SEED, "eval": st.booleans(), "w": st.integers(0, 3)}))


# ---- what the layer differentiates -------------------------------------------------------------------------------
def s_diff():
    return weighted((2, spaces(Ns=[4, 2, 3, 6, 8, 5], maxm=3)), (1, spaces(maxN=9, maxm=3))).flatmap(
        lambda sp: st.fixed_dictionaries({"l": ly.diff_specs(sp, groups_ok=False, dil=(1, 1, 2, 3)), "xs": SEED}))


def c_diff(c):
    l = c["l"]
    sp = l["sp"]
    gs = gspec(sp)
    t = L()["torch"]
    m = ly.build(l)
    if m is None:
        return False
    k = m.kernel_size
    acc = l["acc"]
    top = l["order"]
    if top is None:
        # the largest order whose stencils of the desired accuracy fit: all orders up to it, none beyond
        acc_ = acc if acc is not None else (2 if k > 1 else 1)
        top = max(o for o in range(k) if points(o, acc_) <= k)
    elif l["k"] is None:
        acc_ = acc if acc is not None else (2 if top > 0 else 1)
        need(k == points(top, acc_), lambda: "a layer of order %d and accuracy %d has %d taps per side, needed %d" % (top, acc_, k, points(top, acc_)))
    if l["k"] is not None:
        need(k == l["k"], "kernel size %d instead of %d" % (k, l["k"]))
    nw = m.weights.numel()
    mp = top // 2 if l["mp"] is None else min(l["mp"], top // 2)
    si = np.concatenate([[0], np.cumsum([rep_size(gs, r) for r in l["in"]])]).astype(int)
    so = np.concatenate([[0], np.cumsum([rep_size(gs, r) for r in l["out"]])]).astype(int)
    T = ly.taps(k, l["d"])
    sc = max(1.0, np.abs(T).max())
    fs = []
    with t.no_grad():
        for i in range(nw):
            m.weights.zero_()
            m.weights[i] = 1.0
            fs.append(arr(m.expand_parameters()[0]).reshape(so[-1], si[-1], -1))
    found = {}
    for w, F in enumerate(fs):
        mag = np.abs(F).sum(-1).max()
        need(mag > 1e-4, "weight %d has no effect" % w)
        deg = set()
        pol = None
        for n in range(k):
            # response at the origin to every monomial of degree n (all are reproduced exactly by k points per axis)
            M = np.stack([np.einsum("oip,p->oi", F, (T[0] / sc) ** (n - b) * (T[1] / sc) ** b) for b in range(n + 1)], -1)
            # monomials of a higher degree than the stencil is exact for may respond; only those of degree < k are looked at
            if np.abs(M).max() > 5e-5 * mag:
                deg.add(n)
                M = M / np.array([math.factorial(n - b) * math.factorial(b) for b in range(n + 1)])
                pol = (n, M)
        need(len(deg) == 1, lambda: "weight %d of %d responds to polynomials of degrees %s" % (w, nw, sorted(deg)))
        n, M = pol
        need(n <= top, lambda: "weight %d is an operator of order %d, beyond the limit %d" % (w, n, top))
        # one field pair
        prs = [(a, b) for a in range(len(si) - 1) for b in range(len(so) - 1)
               if np.abs(M[so[b]:so[b + 1], si[a]:si[a + 1]]).max() > 1e-6 * np.abs(M).max()]
        need(len(prs) == 1, lambda: "weight %d acts on %d field pairs" % (w, len(prs)))
        a, b = prs[0]
        C = M[so[b]:so[b + 1], si[a]:si[a + 1]]
        C = C / np.abs(C).max()
        # the operator is equivariant under every group element
        g = rng(c["xs"] + w)
        P = g.standard_normal((2, n + 3))
        ev = lambda Q: np.einsum("oib,bp->oip", C, np.stack([Q[0] ** (n - j) * Q[1] ** j for j in range(n + 1)]))
        for e in (test_elements(gs) if order(gs) <= 8 else test_elements(gs)[::2] + test_elements(gs)[-1:]):
            O, I = ref_rep(gs, l["out"][b], e), np.linalg.inv(ref_rep(gs, l["in"][a], e))
            V = ev(P)
            same(ev(plane(sp, e) @ P), np.einsum("ab,bcp,cd->adp", O, V, I),
                 "operator of order %d of weight %d under %r" % (n, w, e), 2e-3 * max(1.0, np.abs(V).max()), scale=1.0)
        found.setdefault((a, b, n), []).append(C)
    # independence, and completeness up to the order limit
    for a, i in enumerate(l["in"]):
        for b, o in enumerate(l["out"]):
            for n in range(top + 1):
                Cs = found.get((a, b, n), [])
                if Cs:
                    rk = rank_of(np.stack([x.ravel() for x in Cs]), 1e-4)
                    need(rk == len(Cs), lambda: "%d operators of order %d for %s -> %s have rank %d" % (len(Cs), n, i, o, rk))
                if l["mo"] is None:
                    fr = [f for f in range(n % 2, n + 1, 2) if (n - f) // 2 <= mp]
                    if l["filt"] is not None:
                        fr = [f for f in fr if ly.FILTERS[l["filt"]](f, 0.0)]
                    exp = angular_dim(sp, i, o, n, fr) if fr else 0
                    need(len(Cs) == exp, lambda: "%d operators of order %d for %s -> %s, but %d are admissible (orders up to %d, power %d)"
                         % (len(Cs), n, i, o, exp, top, mp))
    # response to a polynomial image away from the borders is a polynomial: the same operator everywhere
    ly.set_params(m, l["seed"])
    if l["ao"] is None and l["s"] == 1:
        c_poly(c, l, m, k, so, si, top)
    return len({n for (_, _, n) in found}) > 1 or sum(len(v) for (_, _, n), v in found.items() if n) > 1


def points(o, acc):
    """number of equidistant points, symmetric around the centre, for a derivative of order o with an error of order acc:
    o + acc, one less when the symmetry raises the accuracy by one"""
    return o + acc - (1 if acc % 2 == 0 else 0)


def c_poly(c, l, m, k, so, si, top):
    """evaluate the layer on a random polynomial image and compare with exact derivatives of that polynomial"""
    t = L()["torch"]
    g = rng(c["xs"])
    D = min(k - 1, 3)
    coef = {(a, b): g.standard_normal(si[-1]) / 4.0 ** (a + b) for a in range(D + 1) for b in range(D + 1 - a)}
    F = arr(m.expand_parameters()[0])
    n = l["d"] * (k - 1) + 4
    ax = np.arange(n) - (n - 1) / 2
    X, Y = np.meshgrid(ax, -ax)
    img = sum(v[:, None, None] * X ** a * Y ** b for (a, b), v in coef.items())
    mode = m.padding
    with t.no_grad():
        out = arr(m(gt(img[None], m.in_type)))[0]
        bias = m.expand_parameters()[1]
    p = l["p"] if isinstance(l["p"], list) else [l["p"]] * 2
    out = out[:, p[0]:out.shape[1] - p[0], p[1]:out.shape[2] - p[1]]
    h = l["d"] * (k - 1) // 2 if l["d"] * (k - 1) % 2 == 0 else l["d"] * (k - 1) / 2
    cx = np.arange(out.shape[2]) - (out.shape[2] - 1) / 2
    CX, CY = np.meshgrid(cx, -(np.arange(out.shape[1]) - (out.shape[1] - 1) / 2))
    T = ly.taps(k, l["d"])
    W = F.reshape(F.shape[0], F.shape[1], -1)
    want = np.zeros(out.shape)
    # operator coefficients from the origin response of the filter; derivative of the polynomial evaluated elsewhere
    for n1 in range(min(top, D) + 1):
        for b in range(n1 + 1):
            a = n1 - b
            C = np.einsum("oip,p->oi", W, T[0] ** a * T[1] ** b) / math.factorial(a) / math.factorial(b)
            d = np.zeros((si[-1],) + CX.shape)
            for (u, v), cc in coef.items():
                if u >= a and v >= b:
                    d += cc[:, None, None] * math.perm(u, a) * math.perm(v, b) * CX ** (u - a) * CY ** (v - b)
            want += np.einsum("oi,ihw->ohw", C, d)
    if bias is not None:
        want += arr(bias)[:, None, None]
    same(out, want, "response to a polynomial image", 2e-4, scale=max(1.0, np.abs(img).max() * np.abs(F).sum(axis=(1, 2, 3)).max()))


FACETS = [Facet("layer", s_layer, check_layer, 2000, rule=RULE),
          Facet("derivatives", s_diff, c_diff, 1200, rule=RULE_D)]
