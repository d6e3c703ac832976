"""Specs, builders and reference semantics of the convolution-like layers (shared by several properties)."""
import math, warnings
import numpy as np
from hypothesis import strategies as st
from .core import need
from .gen import (reps, rep_size, order, SEED, L, spaces, space, gspec, ftype, rng, PI, weighted, field_lists)
from .ref import plane, ref_rep, haar

MODES = ["zeros", "zeros", "zeros", "reflect", "replicate", "circular"]
FILTERS = {"even": lambda f, r: f % 2 == 0, "odd": lambda f, r: f % 2 == 1, "low": lambda f, r: f <= 1,
           "outer": lambda f, r: r > 0.5}


# ---- specs -------------------------------------------------------------------------------------------------------
def conv_specs(sp, transposed=False, maxk=5, fields=2, size=6, total=8, groups_ok=True, strided=True, reps_of=None, named=None):
    gs = gspec(sp)
    fl = reps_of or field_lists(gs, fields, size, total, depth=1)
    big = st.sampled_from([7, 8, 9])

    def f(k):
        d = {"kind": st.just("tconv" if transposed else "conv"), "sp": st.just(sp), "in": fl, "out": fl, "k": st.just(k),
             "p": st.integers(0, (k + 1) // 2) if transposed else st.one_of(
                 st.integers(0, k), st.integers(0, k), st.tuples(st.integers(0, k), st.integers(0, k)).map(list)),
             "s": st.sampled_from([1, 1, 2, 3]) if strided else st.just(1), "d": st.sampled_from([1, 1, 1, 2, 3]),
             "mode": st.just("zeros") if transposed else st.sampled_from(MODES),
             "groups": st.sampled_from([1, 1, 1, 2, 3]) if groups_ok else st.just(1), "bias": st.sampled_from([True, True, True, False]),
             "fco": st.one_of(st.none(), st.none(), st.sampled_from([-1.0, -2.0, -3.0, 0.5, 1.0, 2.0, 3.0]),
                              st.sampled_from([["lin", 0.0, 2.0], ["lin", 1.0, 1.0], ["lin", 2.0, 0.5], ["lin", 0.0, 4.0]])),
             "rings": st.one_of(st.none(), st.lists(st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0]), min_size=1, max_size=3, unique=True)),
             "sigma": st.one_of(st.none(), st.sampled_from([0.4, 0.6, 1.0]), st.sampled_from([[0.4, 0.8], [1.0, 0.5, 0.4]])),
             "mo": weighted((6, st.none()), (1, st.integers(0, 3))),
             "filt": weighted((5, st.none()), (1, st.sampled_from(sorted(FILTERS)))),
             "op": st.just(0), "seed": SEED}
        return st.fixed_dictionaries(d)
    k = weighted((6, st.integers(1, maxk)), (1, big))
    return k.flatmap(f).filter(lambda c: conv_cost(c) <= 20000)


def conv_cost(c):
    gs = gspec(c["sp"])
    i = sum(rep_size(gs, r) for r in c["in"])
    o = sum(rep_size(gs, r) for r in c["out"])
    return i * o * c["k"] ** 2 * c["groups"]


def diff_specs(sp, fields=2, size=4, total=6, groups_ok=True, strided=True, reps_of=None, dil=(1, 1, 1, 2)):
    gs = gspec(sp)
    fl = reps_of or field_lists(gs, fields, size, total, depth=1)
    conf = st.one_of(
        st.tuples(st.integers(0, 3), st.sampled_from([None, 1, 2, 4])).map(lambda t: {"order": t[0], "acc": t[1], "k": None}),
        st.tuples(st.sampled_from([1, 3, 3, 5, 7, 2, 4]), st.sampled_from([None, 2, 2, 1])).filter(lambda t: t != (1, 2)).map(lambda t: {"order": None, "acc": t[1], "k": t[0]}),
        st.tuples(st.sampled_from([3, 5, 7]), st.integers(0, 2)).map(lambda t: {"order": t[1], "acc": None, "k": t[0]}))
    base = {"kind": st.just("diff"), "sp": st.just(sp), "in": fl, "out": fl,
            "p": st.one_of(st.integers(0, 3), st.integers(0, 3), st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list)),
            "s": st.sampled_from([1, 1, 2, 3]) if strided else st.just(1), "d": st.sampled_from(list(dil)),
            "mode": st.sampled_from(MODES), "groups": st.sampled_from([1, 1, 1, 2]) if groups_ok else st.just(1),
            "bias": st.sampled_from([True, True, False]), "mp": weighted((4, st.none()), (1, st.integers(0, 2))),
            "mo": weighted((6, st.none()), (1, st.integers(0, 3))), "filt": weighted((5, st.none()), (1, st.sampled_from(["even", "odd", "low"]))),
            "ao": weighted((6, st.none()), (1, st.just(0.3))) if sp["k"] == "rot" else st.none(), "seed": SEED}
    return st.tuples(conf, st.fixed_dictionaries(base)).map(lambda t: dict(t[1], **t[0]))


# ---- builders ----------------------------------------------------------------------------------------------------
def fco_fn(c):
    f = c["fco"]
    if isinstance(f, list):
        return lambda r: f[1] * r + f[2]
    return f


def filt_fn(c):
    if c["filt"] is None:
        return None
    F = FILTERS[c["filt"]]
    return lambda a: F(abs(int(a["frequency"])), a.get("radius", 0.0))


def max_radius(c):
    return (c["k"] - 1) / 2 * c["d"] * math.sqrt(2)


def rings_of(c):
    if c["rings"] is None:
        return None
    return sorted(q * (c["k"] - 1) / 2 * c["d"] for q in c["rings"]) if c["k"] > 1 else [0.0]


def n_rings(c):
    return math.ceil(c["k"] / 2) if c["rings"] is None else len(rings_of(c))


def sigma_of(c):
    """None, one width, or a width per ring"""
    s = c["sigma"]
    return [s[j % len(s)] for j in range(n_rings(c))] if isinstance(s, list) else s


def pad_of(c):
    return tuple(c["p"]) if isinstance(c["p"], list) else c["p"]


def build(c, gsp=None, initialize=False, randomise=True, rt=None, **extra):
    """the layer of spec c with weights and bias drawn from c['seed'] (or None when its basis is empty)"""
    n, t = L()["n"], L()["torch"]
    S = space(c["sp"]) if gsp is None else gsp
    fi, fo = (ftype(c["sp"], c["in"] * c["groups"], S), ftype(c["sp"], c["out"] * c["groups"], S)) if rt is None else rt
    kw = dict(padding=pad_of(c), stride=c["s"], dilation=c["d"], groups=c["groups"], bias=c["bias"], maximum_offset=c["mo"],
              basis_filter=filt_fn(c), initialize=initialize)
    kw.update(extra)
    if c["kind"] == "diff":
        cls = n.R2Diffop
        kw.update(padding_mode=c["mode"], maximum_power=c["mp"], angle_offset=c["ao"], kernel_size=c["k"], accuracy=c["acc"],
                  maximum_order=c["order"])
    else:
        cls = n.R2Conv if c["kind"] == "conv" else n.R2ConvTransposed
        kw.update(kernel_size=c["k"], sigma=sigma_of(c), frequencies_cutoff=fco_fn(c), rings=rings_of(c))
        if c["kind"] == "conv":
            kw["padding_mode"] = c["mode"]
        else:
            kw["output_padding"] = c["op"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m = cls(fi, fo, **kw)
        except ValueError as e:
            if "basis for the steerable filter is empty" in str(e):
                return None
            raise
    if randomise:
        set_params(m, c["seed"])
    return m


def set_params(m, seed):
    t = L()["torch"]
    g = rng(seed + 11)
    with t.no_grad():
        for p in m.parameters():
            p.copy_(t.tensor(g.standard_normal(tuple(p.shape)), dtype=p.dtype))


# ---- reference semantics -----------------------------------------------------------------------------------------
NPMODE = {"zeros": "constant", "reflect": "reflect", "replicate": "edge", "circular": "wrap"}


def ref_conv(x, W, b, p, s, d, mode, groups):
    """cross-correlation in float64"""
    p = tuple(p) if isinstance(p, (list, tuple)) else (p, p)
    x = np.pad(np.asarray(x, np.float64), ((0, 0), (0, 0), (p[0], p[0]), (p[1], p[1])), mode=NPMODE[mode])
    O, I, k, _ = W.shape
    H = (x.shape[2] - d * (k - 1) - 1) // s + 1
    Wd = (x.shape[3] - d * (k - 1) - 1) // s + 1
    og = O // groups
    out = np.zeros((x.shape[0], O, H, Wd))
    for u in range(k):
        for v in range(k):
            patch = x[:, :, u * d:u * d + (H - 1) * s + 1:s, v * d:v * d + (Wd - 1) * s + 1:s]
            for g in range(groups):
                out[:, g * og:(g + 1) * og] += np.einsum("oi,bihw->bohw", W[g * og:(g + 1) * og, :, u, v], patch[:, g * I:(g + 1) * I])
    if b is not None:
        out += np.asarray(b, np.float64)[None, :, None, None]
    return out


def ref_tconv(x, W, b, p, s, d, op, groups):
    """transposed convolution in float64; W: [in, out / groups, k, k]"""
    x = np.asarray(x, np.float64)
    I, og, k, _ = W.shape
    B, _, H, Wd = x.shape
    ig = I // groups
    full = np.zeros((B, og * groups, (H - 1) * s + d * (k - 1) + 1 + op, (Wd - 1) * s + d * (k - 1) + 1 + op))
    for u in range(k):
        for v in range(k):
            for g in range(groups):
                full[:, g * og:(g + 1) * og, u * d:u * d + (H - 1) * s + 1:s, v * d:v * d + (Wd - 1) * s + 1:s] += np.einsum(
                    "io,bihw->bohw", W[g * ig:(g + 1) * ig, :, u, v], x[:, g * ig:(g + 1) * ig])
    full = full[:, :, p:full.shape[2] - p, p:full.shape[3] - p]
    if b is not None:
        full = full + np.asarray(b, np.float64)[None, :, None, None]
    return full


def taps(k, d=1):
    """[2, k*k] coordinates of the filter taps, row major; x to the right, y upwards"""
    a = (np.arange(k) - (k - 1) / 2) * d
    return np.stack([np.tile(a, k), np.repeat(-a, k)])


def in_size(c, n, k):
    """an input side for which the output grid is centred on the input grid and has n + 1 points per side (conv), >= 1"""
    out = []
    for p in (c["p"] if isinstance(c["p"], list) else [c["p"]] * 2):
        m = n
        while True:
            h = c["s"] * m + c["d"] * (k - 1) + 1 - 2 * p
            low = {"zeros": 1, "reflect": p + 1, "replicate": 1, "circular": max(p, 1)}[c["mode"]]
            if h >= low:
                break
            m += 1
        out.append(h)
    return out


def related_taps(sp, k, d, extra_angles=True):
    """(element spec, tap p, tap q) with g p = q, for elements of the group beyond the grid's own symmetries as well"""
    gs = gspec(sp)
    T = taps(k, d)
    out = []
    r = np.hypot(T[0], T[1])
    th = np.arctan2(T[1], T[0])
    from .gen import all_elements
    fin = all_elements(gs)
    if fin is not None:
        for e in fin:
            Q = plane(sp, e) @ T
            D = np.abs(Q[:, :, None] - T[:, None, :]).max(0)
            pi, qi = np.nonzero(D < 1e-6)
            if len(pi):
                out.append((e, pi, qi))
        return out
    m = T.shape[1]
    for p in range(m):
        for q in range(m):
            if abs(r[p] - r[q]) < 1e-9 and r[p] > 0:
                if gs[0] == "SO2":
                    out.append((th[q] - th[p], [p], [q]))
                else:
                    out.append(([0, th[q] - th[p]], [p], [q]))
                    # R(t + 2a) F moves the angle theta to t + 2a - theta
                    out.append(([1, th[q] + th[p] - 2 * sp["axis"]], [p], [q]))
    c = [i for i in range(m) if r[i] < 1e-9]
    if c:
        for t in (0.7, 2.0, PI):
            out.append((t if gs[0] == "SO2" else [0, t], c, c))
            if gs[0] == "O2":
                out.append(([1, t], c, c))
    return out


def hom_basis(sp, i, o, f):
    """[n, O, I, 1 or 2]: coefficients (of 1, or of cos f t and sin f t) of an independent set of equivariant angular functions of
    frequency f, by averaging over the group"""
    gs = gspec(sp)
    band = f + 2 * (gs[1] if gs[0] in ("SO2", "O2") else 0)
    P = 0
    for e in haar(gs, band):
        A = plane(sp, e)
        if f == 0:
            T = np.eye(1)
        else:
            det = np.linalg.det(A) > 0
            # k'(x) = out k(g^-1 x) in^-1: coefficients of (cos, sin)(f * angle(A^-1 x))
            if det:
                a = f * math.atan2(A[1, 0], A[0, 0])
                T = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
            else:
                a = f * math.atan2(A[1, 0], A[0, 0])
                T = np.array([[math.cos(a), math.sin(a)], [math.sin(a), -math.cos(a)]])
        O, I = ref_rep(gs, o, e), np.linalg.inv(ref_rep(gs, i, e))
        P = P + np.einsum("ab,cd,ts->adtbcs", O, I, T).reshape(O.shape[0] * I.shape[1] * len(T), -1)
    P = P / len(haar(gs, band))
    U, s, _ = np.linalg.svd(P)
    n = int((s > 1e-6).sum())
    so, si = ref_rep(gs, o, haar(gs, band)[0]).shape[0], ref_rep(gs, i, haar(gs, band)[0]).shape[0]
    return U[:, :n].T.reshape(n, so, si, 1 if f == 0 else 2)


def cutoff(c, k):
    """frequency cutoff as a function of the radius"""
    f = c["fco"]
    if isinstance(f, list):
        return lambda r: f[1] * r + f[2]
    f = -1.0 if f is None else f
    R = k // 2
    if f == -3:
        return lambda r: 0 if r == 0 else 1 if r == R else 2
    if f == -2:
        return lambda r: 0 if r == 0 else min(2 * r, 1 if r == R else 2 * r - (r + 1) % 2)
    if f == -1:
        return lambda r: 0 if r == 0 else min(2 * r, 2 if r == R else 2 * r - (r + 1) % 2)
    return lambda r: f * r


def ref_rings(c):
    r = rings_of(c)
    if r is None:
        r = np.linspace(0, (c["k"] - 1) // 2, math.ceil(c["k"] / 2))
        r = [float(v) * (c["d"] if c["kind"] == "conv" else 1) for v in r]
    if c["sigma"] is None:
        s = [0.6] * (len(r) - 1) + [0.4]
        s = [0.005 if a == 0 else b for a, b in zip(r, s)]
    else:
        s = sigma_of(c) if isinstance(c["sigma"], list) else [c["sigma"]] * len(r)
    return r, s


def ref_span(c, i, o):
    """rows spanning all admissible sampled kernels of a field pair: [n, O*I*k*k]"""
    T = taps(c["k"], c["d"])
    rad, th = np.hypot(T[0], T[1]), np.arctan2(T[1], T[0])
    fc = cutoff(c, c["k"])
    rows = []
    homs = {}
    for mu, sg in zip(*ref_rings(c)):
        g = np.exp(-0.5 * (rad - mu) ** 2 / sg ** 2)
        for f in range(int(math.floor(fc(mu) + 1e-9)) + 1):
            if c["filt"] is not None and not FILTERS[c["filt"]](f, mu):
                continue
            if f not in homs:
                homs[f] = hom_basis(c["sp"], i, o, f)
            H = homs[f]
            if not len(H):
                continue
            if f == 0:
                ang = np.ones((1, T.shape[1]))
            else:
                ang = np.stack([np.cos(f * th), np.sin(f * th)]) * (rad > 1e-9)
            rows.append(np.einsum("noit,tp->noip", H, ang * g).reshape(len(H), -1))
    return np.concatenate(rows) if rows else np.zeros((0, rep_size(gspec(c["sp"]), i) * rep_size(gspec(c["sp"]), o) * c["k"] ** 2))
