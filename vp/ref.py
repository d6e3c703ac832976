"""Independent reference mathematics: planar isometries, pixel action, irreps, tolerant comparison.
Nothing here calls the code under test except where a library representation is passed in explicitly."""
import math
import numpy as np
from .core import need, Violation

PI = math.pi


def R(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s], [s, c]])


F = np.array([[1.0, 0.0], [0.0, -1.0]])


# ---- abstract groups: spec ["C",N] ["D",N] ["SO2",m] ["O2",m]; element spec as in gen.py -------------------------
def angle_of(gs, e):
    k = gs[0]
    if k == "C":
        return 2 * PI * e / gs[1]
    if k == "D":
        return 2 * PI * e[1] / gs[1]
    if k == "SO2":
        return float(e)
    return float(e[1])


def flip_of(gs, e):
    return int(e[0]) if gs[0] in ("D", "O2") else 0


def iso(gs, e):
    """rotation after reflection along the x axis (the convention of the dihedral/O(2) elements)"""
    return R(angle_of(gs, e)) @ (F if flip_of(gs, e) else np.eye(2))


def ref_irrep(gs, args, e):
    t = angle_of(gs, e)
    f = flip_of(gs, e)
    k = gs[0]
    if k in ("C", "SO2"):
        q = args[0]
        if q == 0:
            return np.eye(1)
        if k == "C" and 2 * q == gs[1]:
            return np.array([[round(math.cos(q * t))]], dtype=float)
        return R(q * t)
    j, q = args
    if q == 0:
        return np.array([[(-1.0 if f else 1.0) if j else 1.0]])
    if k == "D" and 2 * q == gs[1]:
        return np.array([[round(math.cos(q * t)) * ((-1.0 if f else 1.0) if j else 1.0)]])
    return R(q * t) @ (F if f else np.eye(2))


# ---- plane action of a symmetry space ---------------------------------------------------------------------------
def plane(sp, e):
    """2x2 matrix by which element e of the space's group moves the plane"""
    k = sp["k"]
    if k == "triv":
        return np.eye(2)
    if k == "rot":
        return R(2 * PI * e / sp["N"]) if sp["N"] > 0 else R(float(e))
    if k == "flip":
        return R(2 * sp["axis"]) @ F if e else np.eye(2)
    t = 2 * PI * e[1] / sp["N"] if sp["N"] > 0 else float(e[1])
    return R(t + 2 * sp["axis"]) @ F if e[0] else R(t)


def is_grid(A, tol=1e-6):
    B = np.round(A)
    return bool(np.abs(A - B).max() < tol)


def pixel_move(x, A):
    """(g.f)(p) = f(A^-1 p) for a signed permutation matrix A, on an array [..., H, W]; x to the right, y upwards"""
    A = np.round(A).astype(int)
    H, W = x.shape[-2:]
    swap = A[0, 0] == 0
    H2, W2 = (W, H) if swap else (H, W)
    rr, cc = np.meshgrid(np.arange(H2), np.arange(W2), indexing="ij")
    X, Y = 2 * cc - (W2 - 1), -(2 * rr - (H2 - 1))
    Ai = A.T
    SX = Ai[0, 0] * X + Ai[0, 1] * Y
    SY = Ai[1, 0] * X + Ai[1, 1] * Y
    sc = (SX + (W - 1)) // 2
    sr = (-SY + (H - 1)) // 2
    return x[..., sr, sc]


def fiber(reps, e, x):
    """block-diagonal channel mixing by the library representations of a field list; x: [B, C, ...] float64"""
    out = np.empty_like(x, dtype=np.float64)
    p = 0
    for r in reps:
        M = np.asarray(r(e), dtype=np.float64)
        blk = x[:, p:p + r.size]
        out[:, p:p + r.size] = np.einsum("oi,bi...->bo...", M, blk)
        p += r.size
    need(p == x.shape[1], "field type size %d differs from number of channels %d" % (p, x.shape[1]))
    return out


def act(sp, reps, e, x):
    """full action of a grid-preserving element on a [B,C,H,W] array"""
    return pixel_move(fiber(reps, e, np.asarray(x, dtype=np.float64)), plane(sp, e))


def blockdiag(ms):
    n = sum(m.shape[0] for m in ms)
    m_ = sum(m.shape[1] for m in ms)
    out = np.zeros((n, m_))
    p = q = 0
    for m in ms:
        out[p:p + m.shape[0], q:q + m.shape[1]] = m
        p += m.shape[0]
        q += m.shape[1]
    return out


# ---- tolerant comparison ----------------------------------------------------------------------------------------
def arr(x):
    if hasattr(x, "tensor"):
        x = x.tensor
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x, dtype=np.float64)


def same(a, b, what, tol=1e-8, scale=None, sig=None):
    """a == b within tol * max(1, |values|)"""
    a, b = arr(a), arr(b)
    need(a.shape == b.shape, lambda: "%s: shape %s, expected %s" % (what, a.shape, b.shape), sig)
    if a.size == 0:
        return
    need(bool(np.isfinite(a).all()), lambda: "%s: non-finite values" % what, sig)
    s = max(1.0, float(np.abs(b).max())) if scale is None else scale
    d = float(np.abs(a - b).max())
    need(d <= tol * s, lambda: "%s: differs by %.3g (scale %.3g, allowed %.3g) at %s" % (
        what, d, s, tol * s, tuple(int(i) for i in np.unravel_index(int(np.abs(a - b).argmax()), a.shape))), sig)


def rank_of(M, tol=1e-6):
    if M.size == 0:
        return 0
    s = np.linalg.svd(M, compute_uv=False)
    return int((s > tol * max(1.0, s[0])).sum())


def rejects(fn, what, sig=None, kinds=(AssertionError, ValueError, TypeError, NotImplementedError, KeyError, IndexError,
                                       RuntimeError, AttributeError, ImportError)):
    """fn must raise; whatever it returns otherwise is a violation"""
    try:
        r = fn()
    except kinds:
        return
    raise Violation("%s was accepted (returned %s) instead of being rejected" % (what, type(r).__name__), sig)


def raises(fn):
    try:
        fn()
        return False
    except Exception:
        return True


def ref_rep(gs, r, e, lib=None):
    """independent evaluation of a representation expression at element spec e (quotient/induced leaves come from
    the library object, their own definitions are checked separately)"""
    from . import gen
    k = r[0]
    if k == "triv":
        return np.eye(1)
    if k == "irr":
        return ref_irrep(gs, r[1:], e)
    if k == "reg":
        els = gen.all_elements(gs)
        n = len(els)
        M = np.zeros((n, n))
        for i, g in enumerate(els):
            M[els.index(ref_combine(gs, e, g)), i] = 1
        return M
    if k in ("quo", "ind"):
        return np.asarray(gen.rep(gs, r)(gen.el(gs, e)), dtype=float)
    if k == "sum":
        return blockdiag([ref_rep(gs, x, e) for x in r[1]])
    if k == "cob":
        Q = gen.basis_matrix(r[1], r[2], gen.rep_size(gs, r[3]))
        return Q @ ref_rep(gs, r[3], e) @ np.linalg.inv(Q)
    if k == "nam":
        return ref_rep(gs, r[2], e)
    if k == "res":
        return ref_rep(r[1], r[3], gen.sub_embed(r[1], r[2], e))
    raise KeyError(k)


def ref_combine(gs, a, b):
    k, n = gs
    if k == "C":
        return (a + b) % n
    if k == "D":
        return [(a[0] + b[0]) % 2, (a[1] + (-b[1] if a[0] else b[1])) % n]
    if k == "SO2":
        return a + b
    return [(a[0] + b[0]) % 2, a[1] + (-b[1] if a[0] else b[1])]


def ref_inverse(gs, a):
    k, n = gs
    if k == "C":
        return (-a) % n
    if k == "D":
        return [a[0], a[1] if a[0] else (-a[1]) % n]
    if k == "SO2":
        return -a
    return [a[0], a[1] if a[0] else -a[1]]


def haar(gs, band):
    """elements over which averages of band-limited class functions are exact"""
    from . import gen
    a = gen.all_elements(gs)
    if a is not None:
        return a
    n = 2 * band + 3
    ts = [2 * PI * i / n for i in range(n)]
    return ts if gs[0] == "SO2" else [[f, t] for f in (0, 1) for t in ts]
