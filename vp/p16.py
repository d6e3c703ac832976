"""P16: pooling, invariant maps, upsampling and masking respect the symmetry."""
import math
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (repeated, SEED, L, spaces, gspec, ftype, gtl as gt, rng, weighted, el, elements, rep_size, reps, grid_elements)
from .ref import same, arr, act, plane, fiber
from .p14 import accepted, values, blocks, ind_reps, subsize

RULE = "non-trivial: at least one element other than the identity (acting non-trivially) was tested for equivariance"


# ---- reference operations, float64, one axis at a time where separable --------------------------------------------
def two(v):
    return tuple(v) if isinstance(v, (list, tuple)) else (v, v)


def n_out(h, k, s, p, d, ceil):
    span = h + 2 * p - d * (k - 1) - 1
    if span < 0 and not ceil:
        return 0
    o = -((-span) // s) + 1 if ceil else span // s + 1
    if ceil and (o - 1) * s >= h + p:
        o -= 1
    return o


def windows(h, k, s, p, d, ceil):
    """for each output position: (valid input positions, divisor for average pooling)"""
    out = []
    for o in range(n_out(h, k, s, p, d, ceil)):
        a = o * s - p
        out.append(([a + d * i for i in range(k) if 0 <= a + d * i < h], min(a + k, h + p) - a))
    return out


def pool(x, wr, wc, f):
    """f(list of (row, col) values [B, C, n], divisor)"""
    B, C = x.shape[:2]
    out = np.zeros((B, C, len(wr), len(wc)))
    for i, (rs, dr) in enumerate(wr):
        for j, (cs, dc) in enumerate(wc):
            out[:, :, i, j] = f(x[:, :, rs][:, :, :, cs].reshape(B, C, -1), dr * dc)
    return out


def gauss(radius, sigma):
    a = np.arange(-radius, radius + 1)
    g = np.exp(-(a[:, None] ** 2 + a[None, :] ** 2) / (2.0 * sigma ** 2))
    return g / g.sum()


def blur(x, g, s, p):
    x = np.pad(x, ((0, 0), (0, 0), (p[0], p[0]), (p[1], p[1])))
    k = g.shape[0]
    H = (x.shape[2] - k) // s[0] + 1
    W = (x.shape[3] - k) // s[1] + 1
    out = np.zeros(x.shape[:2] + (H, W))
    for u in range(k):
        for v in range(k):
            out += g[u, v] * x[:, :, u:u + (H - 1) * s[0] + 1:s[0], v:v + (W - 1) * s[1] + 1:s[1]]
    return out


def bins(h, o):
    return [(list(range((i * h) // o, -((-(i + 1) * h) // o))), 1) for i in range(o)]


def lin_matrix(h, o, align):
    """[o, h] bilinear interpolation along one axis"""
    M = np.zeros((o, h))
    for i in range(o):
        if align:
            q = i * (h - 1) / (o - 1) if o > 1 else 0.0
        else:
            q = max(0.0, (i + 0.5) * h / o - 0.5)
        a = min(int(math.floor(q)), h - 1)
        b = min(a + 1, h - 1)
        M[i, a] += 1 - (q - a)
        M[i, b] += q - a
    return M


def near_matrix(h, o):
    M = np.zeros((o, h))
    for i in range(o):
        M[i, min(h - 1, (i * h) // o)] = 1
    return M


# ---- symmetry ----------------------------------------------------------------------------------------------------
def symmetric(m, sp, ft, x, y, square, what, tol=1e-4, out_mask=None):
    """m commutes with every grid element (those swapping the axes only when everything is square)"""
    nt = False
    for e in grid_elements(sp):
        A = plane(sp, e)
        swap = abs(A[0, 0]) < 0.5
        if swap and not square:
            continue
        g = el(gspec(sp), e)
        gx = act(sp, ft.representations, g, x)
        want = act(sp, m.out_type.representations, g, arr(y))
        got = arr(m(gt(gx, ft)))
        if out_mask is not None and got.shape == want.shape:
            keep = act(sp, [T1] * out_mask.shape[1], g, out_mask.astype(float)) > 0.5
            got, want = got * keep, want * keep
        same(got, want, "%s: equivariance under %r" % (what, e), tol, scale=max(1.0, np.abs(want).max(initial=0), np.abs(x).max(initial=0)))
        nt = nt or (gx.shape == x.shape and np.abs(gx - x).max(initial=0) > 1e-3)
    return nt


class _T1:
    size = 1

    def __call__(self, e):
        return np.eye(1)


T1 = _T1()


def types(gs, kind):
    s = reps(gs, maxsize=6, depth=1) if kind == "any" else accepted(gs, kind, 8)
    return repeated(gs, st.lists(s, min_size=1, max_size=4), 18)


def mixed(s):
    """an int or a pair"""
    return st.one_of(s, s, st.tuples(s, s).map(list))


def sizes(k, s, p, d, sym, extra):
    """image size per axis with an (un)symmetric window grid"""
    out = []
    for i in (0, 1):
        o = 1 + extra[i] % 3
        h = s[i] * (o - 1) + d[i] * (k[i] - 1) + 1 - 2 * p[i]
        if not sym:
            h += extra[i + 2]
        while h < 1:
            h += s[i]
        out.append(h)
    return out


# ---- max / average / norm pooling ---------------------------------------------------------------------------------
KIND = {"max": "pointwise", "avg": "any", "norm": "norm"}


def s_window():
    def f(t):
        sp, kind = t
        return st.fixed_dictionaries({
            "sp": st.just(sp), "kind": st.just(kind), "rs": types(gspec(sp), KIND[kind]), "k": mixed(st.integers(1, 4)),
            "s": st.one_of(st.none(), mixed(st.integers(1, 3))), "p": mixed(st.integers(0, 2)),
            "d": mixed(st.sampled_from([1, 1, 2])) if kind != "avg" else st.just(1), "ceil": st.booleans(),
            "sym": st.sampled_from([True, True, False]), "square": st.sampled_from([True, True, False]),
            "extra": st.tuples(*[st.integers(0, 3)] * 4).map(list), "B": st.integers(1, 2), "x": SEED})
    return st.tuples(spaces(maxN=8, maxm=3, grid_axes=True), st.sampled_from(["max", "avg", "norm"])).flatmap(f)


def tup(v):
    return tuple(v) if isinstance(v, list) else v


def c_window(c):
    n, t = L()["n"], L()["torch"]
    sp, gs = c["sp"], gspec(c["sp"])
    k, d = two(c["k"]), two(c["d"])
    s = k if c["s"] is None else two(c["s"])
    p = tuple(min(a, b // 2) for a, b in zip(two(c["p"]), k))
    ex = list(c["extra"])
    square = c["square"] and k[0] == k[1] and d[0] == d[1] and s[0] == s[1] and p[0] == p[1]
    if c["square"]:
        ex[1], ex[3] = ex[0], ex[2]
    h, w = sizes(k, s, p, d, c["sym"], ex)
    ft = ftype(sp, c["rs"])
    cls = {"max": n.PointwiseMaxPool, "avg": n.PointwiseAvgPool, "norm": n.NormMaxPool}[c["kind"]]
    kw = dict(kernel_size=tup(c["k"]), stride=tup(c["s"]), padding=p[0] if p[0] == p[1] else p, ceil_mode=c["ceil"])
    if c["kind"] != "avg":
        kw["dilation"] = tup(c["d"])
    m = cls(ft, **kw)
    what = cls.__name__
    need(m.in_type == ft and m.out_type == ft, "%s: declared types" % what)
    wr = windows(h, k[0], s[0], p[0], d[0], c["ceil"])
    wc = windows(w, k[1], s[1], p[1], d[1], c["ceil"])
    if not all(a for a, _ in wr + wc):
        return False  # a window without any input value has no stated result
    x = values(c["x"], (c["B"], ft.size, h, w))
    if c["kind"] == "norm":
        x = rng(c["x"]).standard_normal(x.shape).astype(np.float32)
    X = gt(x, ft)
    y = m(X)
    same(X, x, "%s: its input" % what, 0)
    need(y.type == m.out_type, "%s: output type" % what)
    x64 = x.astype(np.float64)
    om = None
    if c["kind"] == "max":
        want = pool(x64, wr, wc, lambda v, q: v.max(2))
    elif c["kind"] == "avg":
        want = pool(x64, wr, wc, lambda v, q: v.sum(2) / q)
    else:
        want = np.zeros((c["B"], ft.size, len(wr), len(wc)))
        om = np.zeros(want.shape, bool)
        for a, b, r in blocks(ft):
            for i, (rr, _) in enumerate(wr):
                for j, (cc, _) in enumerate(wc):
                    v = x64[:, a:b][:, :, rr][:, :, :, cc].reshape(c["B"], b - a, -1)
                    nr = np.sqrt((v ** 2).sum(1))
                    top = nr.argmax(1)
                    want[:, a:b, i, j] = v[np.arange(c["B"]), :, top]
                    srt = np.sort(nr, 1)
                    ok = np.ones(c["B"], bool) if nr.shape[1] == 1 else srt[:, -1] - srt[:, -2] > 1e-4
                    om[:, a:b, i, j] = ok[:, None]
    Y = arr(y)
    need(Y.shape == want.shape, lambda: "%s: output shape %s, expected %s" % (what, Y.shape, want.shape))
    keep = 1.0 if om is None else om
    same(Y * keep, want * keep, what, 1e-5)
    if not all((z + 2 * p[i] - d[i] * (k[i] - 1) - 1) % s[i] == 0 for i, z in enumerate((h, w))):
        return False
    return symmetric(m, sp, ft, x, y, square and h == w, what, out_mask=om)


# ---- antialiased -------------------------------------------------------------------------------------------------
def s_blur():
    def f(t):
        sp, kind = t
        return st.fixed_dictionaries({
            "sp": st.just(sp), "kind": st.just(kind), "rs": types(gspec(sp), KIND[kind]), "k": mixed(st.integers(1, 4)),
            "s": mixed(st.integers(1, 3)), "p": st.one_of(st.none(), mixed(st.integers(0, 3))),
            "sigma": st.sampled_from([0.6, 0.4, 0.3, 1.0, 0.66, 0.5, 0.1]), "ceil": st.booleans(),
            "sym": st.sampled_from([True, True, False]), "square": st.sampled_from([True, True, False]),
            "extra": st.tuples(*[st.integers(0, 3)] * 4).map(list), "B": st.integers(1, 2), "x": SEED})
    return st.tuples(spaces(maxN=8, maxm=3, grid_axes=True), st.sampled_from(["max", "avg"])).flatmap(f)


def c_blur(c):
    n = L()["n"]
    from .gen import gt  # convolutions: plain layout
    sp = c["sp"]
    ft = ftype(sp, c["rs"])
    s = two(c["s"])
    ex = list(c["extra"])
    if c["square"]:
        ex[1], ex[3] = ex[0], ex[2]
    if c["kind"] == "max":
        k = two(c["k"])
        p = tuple(min(a, b // 2) for a, b in zip(two(c["p"] or 0), k))
        m = n.PointwiseMaxPoolAntialiased(ft, tup(c["k"]), stride=tup(c["s"]), padding=p[0] if p[0] == p[1] else p, ceil_mode=c["ceil"], sigma=c["sigma"])
        rad = int(round(4 * c["sigma"]))
        # dense maximum, then blur with (p + radius) padding
        h, w = sizes((k[0] + 1, k[1] + 1), s, p, (1, 1), c["sym"], ex)
        q = tuple(v + rad for v in p)
    else:
        k = (1, 1)
        rad = int(round(3 * c["sigma"]))
        p = (rad, rad) if c["p"] is None else two(c["p"])
        m = n.PointwiseAvgPoolAntialiased(ft, c["sigma"], tup(c["s"]), padding=None if c["p"] is None else tup(c["p"]))
        q = p
        h, w = sizes((2 * rad + 1, 2 * rad + 1), s, p, (1, 1), c["sym"], ex)
    what = type(m).__name__
    g = gauss(rad, c["sigma"])
    x = values(c["x"], (c["B"], ft.size, h, w))
    d64 = x.astype(np.float64)
    if c["kind"] == "max":
        wr = windows(h, k[0], 1, p[0], 1, c["ceil"])
        wc = windows(w, k[1], 1, p[1], 1, c["ceil"])
        if not wr or not wc or not all(a for a, _ in wr + wc):
            return False
        d64 = pool(d64, wr, wc, lambda v, _: v.max(2))
    if any(z + 2 * q[i] < 2 * rad + 1 for i, z in enumerate(d64.shape[2:])):
        return False
    want = blur(d64, g, s, q)
    X = gt(x, ft)
    y = m(X)
    same(X, x, "%s: its input" % what, 0)
    need(y.type == m.out_type == ft, "%s: output type" % what)
    same(y, want, what, 2e-5, scale=max(1.0, np.abs(x).max()))
    if not all((z + 2 * q[i] - 2 * rad - 1) % s[i] == 0 for i, z in enumerate(d64.shape[2:])):
        return False
    square = k[0] == k[1] and s[0] == s[1] and p[0] == p[1] and h == w
    return symmetric(m, sp, ft, x, y, square, what)


# ---- adaptive, upsampling, mask -----------------------------------------------------------------------------------
def s_resize():
    def f(t):
        sp, kind = t
        return st.fixed_dictionaries({
            "sp": st.just(sp), "kind": st.just(kind), "rs": types(gspec(sp), "pointwise" if kind in ("amax", "aavg") else "any"),
            "o": mixed(st.integers(1, 6)), "scale": st.sampled_from([None, 1, 2, 3]), "align": st.booleans(),
            "hw": st.tuples(st.integers(1, 7), st.integers(1, 7)).map(list), "square": st.sampled_from([True, True, False]),
            "B": st.integers(1, 2), "x": SEED})
    return st.tuples(spaces(maxN=8, maxm=3, grid_axes=True), st.sampled_from(["amax", "aavg", "bilinear", "bilinear", "nearest"])).flatmap(f)


def c_resize(c):
    n = L()["n"]
    sp, kind = c["sp"], c["kind"]
    ft = ftype(sp, c["rs"])
    h, w = (c["hw"][0],) * 2 if c["square"] else c["hw"]
    x = values(c["x"], (c["B"], ft.size, h, w))
    x64 = x.astype(np.float64)
    o = two(c["o"])
    sym = True
    if kind in ("amax", "aavg"):
        cls = n.PointwiseAdaptiveMaxPool if kind == "amax" else n.PointwiseAdaptiveAvgPool
        m = cls(ft, tup(c["o"]))
        want = pool(x64, bins(h, o[0]), bins(w, o[1]), lambda v, _: v.max(2) if kind == "amax" else v.mean(2))
    else:
        cls = n.R2Upsampling
        if c["scale"] is None:
            m = cls(ft, size=tup(c["o"]), mode=kind, align_corners=c["align"])
        else:
            m = cls(ft, scale_factor=c["scale"], mode=kind, align_corners=c["align"])
            o = (h * c["scale"], w * c["scale"])
        if kind == "bilinear":
            A, B = lin_matrix(h, o[0], c["align"]), lin_matrix(w, o[1], c["align"])
        else:
            A, B = near_matrix(h, o[0]), near_matrix(w, o[1])
            sym = all(b % a == 0 for a, b in zip((h, w), o))
        # one sample per output pixel leaves nothing to centre when corners are aligned
        if kind == "bilinear" and c["align"] and any(b == 1 and a > 1 for a, b in zip((h, w), o)):
            sym = False
        want = np.einsum("ih,bchw,jw->bcij", A, x64, B)
    what = "%s %s" % (cls.__name__, kind)
    need(m.in_type == ft and m.out_type == ft, "%s: declared types" % what)
    X = gt(x, ft)
    y = m(X)
    same(X, x, "%s: its input" % what, 0)
    need(y.type == ft, "%s: output type" % what)
    same(y, want, what, 2e-5, scale=max(1.0, np.abs(x).max()))
    if not sym:
        return False
    return symmetric(m, sp, ft, x, y, h == w and o[0] == o[1], what)


def s_mask():
    return spaces(maxN=8, maxm=3, grid_axes=True).flatmap(lambda sp: st.fixed_dictionaries({
        "sp": st.just(sp), "rs": types(gspec(sp), "any"), "S": st.one_of(st.integers(1, 8), st.integers(9, 21)),
        "margin": st.sampled_from([0.0, 0.0, 2.0, 10.0, 33.0, 50.0, 100.0]), "B": st.integers(1, 2), "x": SEED}))


def c_mask(c):
    n = L()["n"]
    sp = c["sp"]
    ft = ftype(sp, c["rs"])
    S = c["S"]
    m = n.MaskModule(ft, S, margin=c["margin"])
    one = np.ones((1, ft.size, S, S), np.float32)
    k = arr(m(gt(one, ft)))
    need(k.shape == one.shape, "MaskModule: shape")
    same(k, np.broadcast_to(k[:, :1], k.shape), "MaskModule: mask of different channels", 0)
    k = k[0, 0]
    a = np.arange(S) - (S - 1) / 2
    r = np.hypot(a[:, None], a[None, :])
    R = (S - 1) / 2 * (1 - c["margin"] / 100)
    need(bool((k >= 0).all() and (k <= 1).all()), "MaskModule: values outside [0, 1]")
    need(bool((np.abs(k[r < R - 1e-6] - 1) < 1e-6).all()), "MaskModule: not 1 inside the radius %.3g" % R)
    o = np.argsort(r.reshape(-1), kind="stable")
    rs, ks = r.reshape(-1)[o], k.reshape(-1)[o]
    same(np.minimum.accumulate(ks), ks, "MaskModule: mask is not decreasing with the distance from the centre", 1e-5)
    need(bool((k[r > R + 4.5] < 0.01).all()), "MaskModule: not 0 far outside the radius %.3g" % R)
    x = values(c["x"], (c["B"], ft.size, S, S))
    X = gt(x, ft)
    y = m(X)
    same(X, x, "MaskModule: its input", 0)
    need(y.type == m.out_type == ft, "MaskModule: output type")
    same(y, x * k, "MaskModule", 1e-6)
    return symmetric(m, sp, ft, x, y, True, "MaskModule")


# ---- invariant maps ----------------------------------------------------------------------------------------------
def s_inv():
    def f(t):
        sp, kind = t
        gs = gspec(sp)
        if kind == "induced":
            s = st.lists(ind_reps(gs).filter(lambda r: rep_size(gs, r) <= 12), min_size=1, max_size=5)
        else:
            s = st.lists(accepted(gs, "pointwise" if kind == "group" else "norm"), min_size=1, max_size=6)
        s = repeated(gs, s, 30)
        return st.fixed_dictionaries({"sp": st.just(sp), "kind": st.just(kind), "rs": s, "x": SEED,
                                      "shape": st.tuples(st.integers(1, 3), st.integers(1, 4), st.integers(1, 4)).map(list),
                                      "es": st.lists(elements(gs), min_size=2, max_size=4)})
    return st.tuples(spaces(maxN=9, maxm=4, grid_axes=True), st.sampled_from(["group", "norm", "induced"])).filter(
        lambda t: t[1] != "induced" or gspec(t[0])[0] != "SO2").flatmap(f)


def c_inv(c):
    n = L()["n"]
    sp, gs = c["sp"], gspec(c["sp"])
    ft = ftype(sp, c["rs"])
    cls = {"group": n.GroupPooling, "norm": n.NormPool, "induced": n.InducedNormPool}[c["kind"]]
    m = cls(ft)
    what = cls.__name__
    B, H, W = c["shape"]
    x = values(c["x"], (B, ft.size, H, W))
    X = gt(x, ft)
    y = m(X)
    same(X, x, "%s: its input" % what, 0)
    need(y.type == m.out_type and len(m.out_type) == len(ft) and all(r.is_trivial() and r.size == 1 for r in m.out_type),
         "%s: declared output type" % what)
    need(m.out_type.gspace == ft.gspace, "%s: output space" % what)
    want = np.zeros((B, len(ft), H, W))
    for i, (a, b, r) in enumerate(blocks(ft)):
        v = x[:, a:b].astype(np.float64)
        if c["kind"] == "group":
            want[:, i] = v.max(1)
        elif c["kind"] == "norm":
            want[:, i] = np.sqrt((v ** 2).sum(1))
        else:
            k = subsize(r, "induced_norm")
            want[:, i] = np.sqrt((v.reshape(B, -1, k, H, W) ** 2).sum(2)).max(1)
    same(y, want, what, 1e-5)
    nt = False
    for e in c["es"]:
        gx = fiber(ft.representations, el(gs, e), x.astype(np.float64))
        same(m(gt(gx, ft)), want, "%s: invariance under %r" % (what, e), 1e-4)
        nt = nt or np.abs(gx - x).max() > 1e-3
    return symmetric(m, sp, ft, x, y, H == W, what) or nt


FACETS = [
    Facet("window", s_window, c_window, 2400, rule=RULE),
    Facet("blur", s_blur, c_blur, 1400, rule=RULE),
    Facet("resize", s_resize, c_resize, 1500, rule=RULE),
    Facet("mask", s_mask, c_mask, 450, rule=RULE),
    Facet("invariant", s_inv, c_inv, 1800, rule=RULE),
]
