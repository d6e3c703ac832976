"""P08: transforming a feature field is a group action on values and plane."""
import math
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (el, elements, SEED, L, spaces, space, gspec, ftype, field_lists, tensor, gt, PI, rng, grid_elements, weighted)
from .ref import same, act, fiber, plane, ref_rep, blockdiag, ref_combine, pixel_move, is_grid, arr

RULE_G = "non-trivial: some generated element moves the pixels or mixes the channels (not both elements are the identity)."
RULE_I = "non-trivial: the element does not map the pixel grid to itself, so the library has to interpolate."
RULE_F = "non-trivial: the channel mixing is not the identity."


def shapes(lo=1, hi=7):
    return st.tuples(st.integers(1, 3), st.integers(lo, hi), st.integers(lo, hi)).map(list)


def wraps(sp, e, k):
    """the same planar isometry with the angle shifted by full turns (continuous groups only)"""
    if sp["k"] in ("rot", "fliprot") and sp["N"] < 0:
        return e + 2 * PI * k if sp["k"] == "rot" else [e[0], e[1] + 2 * PI * k]
    return e


# ---- elements that map the grid to itself ------------------------------------------------------------------------
def s_grid():
    return weighted((2, spaces(Ns=[4, 8, 12, 2, 6], grid_axes=True, maxm=4)), (1, spaces(maxN=12, maxm=4))).flatmap(lambda sp: st.fixed_dictionaries(
        {"sp": st.just(sp), "rs": field_lists(gspec(sp), 3, 8, 16), "shape": shapes(),
         "g": st.sampled_from(grid_elements(sp)), "h": st.sampled_from(grid_elements(sp)),
         "w": st.integers(-2, 2), "seed": SEED, "lin": st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(list)}))


def c_grid(c):
    sp = c["sp"]
    gs = gspec(sp)
    ft = ftype(sp, c["rs"])
    t = L()["torch"]
    B, H, W = c["shape"]
    x = tensor(c["seed"], (B, ft.size, H, W)).astype(np.float32)
    y = tensor(c["seed"] + 1, (B, ft.size, H, W)).astype(np.float32)
    X, Y = gt(x, ft), gt(y, ft)
    g, h = wraps(sp, c["g"], c["w"]), c["h"]
    ge, he = el(gs, g), el(gs, h)
    what = "transforming by %r" % (g,)
    RX = X.transform(ge)
    need(RX.type == ft, "%s changed the field type" % what)
    # independent channel mixing and pixel motion
    M = blockdiag([ref_rep(gs, r, g) for r in c["rs"]])
    want = pixel_move(np.einsum("oi,bihw->bohw", M, x.astype(np.float64)), plane(sp, g))
    same(RX, want, what, 2e-5)
    same(ft.transform(X.tensor, ge), want, what + " (field type)", 2e-5)
    same(ft.gspace.featurefield_action(x.astype(np.float64), ft.representation, ge), want, what + " (space)", 1e-6)
    # composition, inverse, identity, linearity
    e = ft.fibergroup.identity
    need(np.array_equal(arr(X.transform(e)), arr(X)) or np.abs(arr(X.transform(e)) - x).max() < 1e-5, "the identity moves values")
    gh = ft.fibergroup.combine(ge, he)
    same(X.transform(he).transform(ge), X.transform(gh), "transforming by %r then %r against their product" % (h, g), 3e-5)
    same(X.transform(ge).transform(ft.fibergroup.inverse(ge)), x, "transforming by %r and its inverse" % (g,), 3e-5)
    a, b = c["lin"]
    same(gt(a * x + b * y, ft).transform(ge), a * arr(RX) + b * arr(Y.transform(ge)), "linearity of " + what, 1e-4)
    same(X, x, "the tensor transformed by %r" % (g,), 0)
    if B > 1:
        same(gt(x[1:2], ft).transform(ge), arr(RX)[1:2], what + " depends on other samples of the batch", 1e-6)
    # the action of a concatenation / a single field
    if len(c["rs"]) > 1:
        same(X[:, 1:2].transform(ge), RX[:, 1:2], "transforming a single field", 1e-5)
    return not (np.allclose(M, np.eye(len(M))) and np.allclose(plane(sp, g), np.eye(2)))


# ---- interpolated elements ---------------------------------------------------------------------------------------
def s_interp():
    return spaces(maxN=12, maxm=4, minN=2).filter(lambda sp: sp["k"] != "triv").flatmap(lambda sp: st.fixed_dictionaries(
        {"sp": st.just(sp), "rs": field_lists(gspec(sp), 2, 6, 8), "g": elements(gspec(sp)), "seed": SEED,
         "size": st.sampled_from([23, 24, 27]), "odd": st.booleans()}))


def bumps(seed, n, C):
    r = rng(seed)
    P = []
    for _ in range(C):
        P.append([(r.uniform(0, 0.45) * (n / 2), r.uniform(0, 2 * PI), r.uniform(-2, 2)) for _ in range(3)])
    return P


def render(P, A, H, W):
    """image of the field of gaussian bumps moved by the isometry A"""
    rr, cc = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
    X, Y = cc - (W - 1) / 2, -(rr - (H - 1) / 2)
    out = np.zeros((len(P), H, W))
    for c, bs in enumerate(P):
        for r, t, a in bs:
            q = A @ np.array([r * math.cos(t), r * math.sin(t)])
            out[c] += a * np.exp(-((X - q[0]) ** 2 + (Y - q[1]) ** 2) / (2 * 2.0 ** 2))
    return out


def c_interp(c):
    sp = c["sp"]
    gs = gspec(sp)
    ft = ftype(sp, c["rs"])
    n = c["size"]
    H, W = (n, n + 4) if c["odd"] else (n, n)
    P = bumps(c["seed"], n, ft.size)
    g = c["g"]
    A = plane(sp, g)
    x = render(P, np.eye(2), H, W)
    M = blockdiag([ref_rep(gs, r, g) for r in c["rs"]])
    want = np.einsum("oi,ihw->ohw", M, render(P, A, H, W))
    X = gt(x[None], ft)
    ge = el(gs, g)
    got = X.transform(ge)
    if not is_grid(A) or H == W:
        # non-square images rotated by 90 degrees change shape and are covered by the other facet
        same(arr(got)[0], want, "transforming smooth bumps by %r" % (g,), 0.03, scale=max(1.0, float(np.abs(want).max())))
    y = tensor(c["seed"] + 3, (1, ft.size, H, W))
    same(gt(2 * x[None] - y, ft).transform(ge), 2 * arr(got) - arr(gt(y, ft).transform(ge)),
         "linearity of transforming by %r" % (g,), 2e-4)
    same(X, x[None].astype(np.float32), "the tensor transformed by %r" % (g,), 0)
    return not is_grid(A)


# ---- fibers ------------------------------------------------------------------------------------------------------
def s_fib():
    return spaces(maxN=12, maxm=5).flatmap(lambda sp: st.fixed_dictionaries(
        {"sp": st.just(sp), "rs": field_lists(gspec(sp), 4, 10, 24), "g": elements(gspec(sp)), "h": elements(gspec(sp)),
         "seed": SEED, "shape": shapes(1, 4), "nc": st.booleans()}))


def c_fib(c):
    sp = c["sp"]
    gs = gspec(sp)
    ft = ftype(sp, c["rs"])
    B, H, W = c["shape"]
    x = tensor(c["seed"], (B, ft.size, H, W)).astype(np.float32)
    X = gt(x, ft)
    if c["nc"]:
        X = L()["n"].GeometricTensor(X.tensor.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2), ft)
    g, h = el(gs, c["g"]), el(gs, c["h"])
    M = blockdiag([ref_rep(gs, r, c["g"]) for r in c["rs"]])
    got = X.transform_fibers(g)
    need(got.type == ft, "transform_fibers changed the field type")
    same(got, np.einsum("oi,bihw->bohw", M, x.astype(np.float64)), "transform_fibers by %r" % (g,), 2e-5)
    same(ft.representation(g), M, "representation of the field type at %r" % (g,), 1e-6)
    same(X.transform_fibers(h).transform_fibers(g), X.transform_fibers(ft.fibergroup.combine(g, h)),
         "transform_fibers by %r then %r against their product" % (h, g), 5e-5)
    same(X.transform_fibers(ft.fibergroup.identity), x, "transform_fibers by the identity", 1e-5)
    same(X, x, "the tensor whose fibers were transformed", 0)
    return not np.allclose(M, np.eye(len(M)))


FACETS = [Facet("grid", s_grid, c_grid, 4000, rule=RULE_G),
          Facet("interpolated", s_interp, c_interp, 2000, rule=RULE_I),
          Facet("fibers", s_fib, c_fib, 3000, rule=RULE_F)]
