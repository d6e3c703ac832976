"""P06: kernel bases satisfy the equivariance constraint, are independent and complete."""
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (reps, rep, rep_size, order, SEED, L, spaces, space, gspec, el, elements, test_elements, rng, PI, weighted)
from .ref import same, ref_rep, plane, rank_of, haar

RULE = "non-trivial: the basis has at least two elements and the group moves the plane or acts on the fibers."


def angular_dim(sp, i, o, F, freqs=None):
    """dim Hom_G(in (x) trigonometric polynomials of frequency in freqs, out) by characters"""
    gs = gspec(sp)
    band = F + 2 * (gs[1] if gs[0] in ("SO2", "O2") else 0)
    es = haar(gs, band)
    tot = 0.0
    for e in es:
        A = plane(sp, e)
        if np.linalg.det(A) > 0:
            t = np.arctan2(A[1, 0], A[0, 0])
            chi = sum((1 if m == 0 else 2) * np.cos(m * t) for m in (range(F + 1) if freqs is None else freqs))
        else:
            chi = sum(1 for m in (range(F + 1) if freqs is None else freqs) if m == 0)
        # character of the input at the inverse equals the one at the element (real orthogonalisable representations)
        tot += np.trace(ref_rep(gs, i, e)) * np.trace(ref_rep(gs, o, e)) * chi
    tot /= len(es)
    n = int(round(tot))
    assert abs(tot - n) < 1e-6, tot
    return n


def big(sp, i, o, F, rings):
    gs = gspec(sp)
    n = order(gs)
    per = rep_size(gs, i) * rep_size(gs, o)
    return per > 16 or rings * (per * (2 * F + 1) / max(n, 1) if n > 0 else 2 * per) > 160


def s_basis():
    def f(sp):
        gs = gspec(sp)
        r = reps(gs, maxsize=6, depth=2)
        return st.fixed_dictionaries({
            "sp": st.just(sp), "i": r, "o": r, "F": st.integers(0, 6),
            "rings": st.lists(st.sampled_from([0.0, 1.0, 2.0, 3.0, 0.7, 1.5]), min_size=1, max_size=3, unique=True)
            .filter(lambda l: all(abs(a - b) > 0.6 for k, a in enumerate(l) for b in l[:k])),
            "sigma": st.one_of(st.sampled_from([0.4, 0.6]), st.sampled_from([[0.3, 0.6, 0.4], [0.5, 0.4, 0.7], [0.05, 0.6, 0.6]])),
            "mo": weighted((5, st.none()), (2, st.integers(0, 3)), (1, st.just(50))),
            "only_mo": st.booleans(), "e": st.lists(elements(gs), min_size=1, max_size=3), "seed": SEED}
        ).filter(lambda c: not big(sp, c["i"], c["o"], c["F"], len(c["rings"])))
    return spaces(maxN=9, maxm=3).flatmap(f)


def c_basis(c):
    sp = c["sp"]
    gs = gspec(sp)
    S = space(sp)
    cont = gs[0] in ("SO2", "O2")
    ri, ro = rep(gs, c["i"], S.fibergroup), rep(gs, c["o"], S.fibergroup)
    F = c["F"]
    rings = list(c["rings"])
    sigma = c["sigma"] if isinstance(c["sigma"], float) else c["sigma"][:len(rings)]
    kw = {"maximum_frequency": F}
    exact = True
    if c["mo"] is not None:
        kw["maximum_offset"] = c["mo"]
        exact = c["mo"] >= 50
        if c["only_mo"] and c["mo"] < 50:
            del kw["maximum_frequency"]
    Empty = L()["k"].EmptyBasisException
    if cont:
        exact, F = True, 2 * gs[1]
    expect = angular_dim(sp, c["i"], c["o"], F) * len(rings)
    what = "kernel basis of %s for %s -> %s with %s" % (sp, c["i"], c["o"], kw)
    try:
        B = S.build_kernel_basis(ri, ro, sigma=sigma, rings=rings, **kw)
        dim = B.dim
    except Empty:
        need(not exact or expect == 0, lambda: "%s is empty but %d independent kernels exist" % (what, expect))
        return False
    need(len(B) == dim, "%s: len() and dim differ" % what)
    g = rng(c["seed"])
    # points: a polar grid, random points and the origin
    maxf = max(abs(int(a["frequency"])) for a in B) if dim else 0
    nang = 2 * maxf + 3
    radii = np.unique([0.13, 0.6, 1.1, 1.7, 2.4, 3.1] + [max(r, 0.02) for r in rings])
    ang = 2 * PI * np.arange(nang) / nang
    P = np.stack([np.outer(radii, np.cos(ang)).ravel(), np.outer(radii, np.sin(ang)).ravel()])
    P = np.concatenate([np.zeros((2, 1)), P, g.uniform(-3, 3, size=(2, 4))], axis=1)
    K = B.sample(P)
    need(K.shape == (ro.size, ri.size, dim, P.shape[1]), lambda: "%s: sampled shape %s" % (what, K.shape))
    # constraint
    for e in c["e"] + (test_elements(gs)[:6] if order(gs) != 1 else []):
        A = plane(sp, e)
        x = el(gs, e)
        KG = B.sample(A @ P)
        O, I = ref_rep(gs, c["o"], e), np.linalg.inv(ref_rep(gs, c["i"], e))
        same(KG, np.einsum("ab,bcdp,ce->aedp", O, K, I), "%s: k(g.x) = out(g) k(x) in(g)^-1 at g=%r" % (what, x), 1e-7)
    # independence
    M = K.transpose(2, 0, 1, 3).reshape(dim, -1)
    nrm = np.linalg.norm(M, axis=1)
    need(nrm.min() > 1e-9, "%s: an element vanishes" % what)
    need(rank_of(M / nrm[:, None], 1e-7) == dim, lambda: "%s: %d elements of rank %d" % (what, dim, rank_of(M / nrm[:, None], 1e-7)))
    # completeness and frequency content
    if exact:
        need(dim == expect, lambda: "%s: %d elements, but the space of such kernels has dimension %d" % (what, dim, expect))
    elif "maximum_frequency" in kw:
        need(dim <= expect, lambda: "%s: %d elements in a space of dimension %d" % (what, dim, expect))
    ring = np.stack([np.cos(ang), np.sin(ang)]) * 1.1
    spec = np.abs(np.fft.fft(B.sample(ring), axis=-1)).max(axis=(0, 1))
    infos = list(B)
    need(len(infos) == dim, "%s: iterating gives %d descriptions" % (what, len(infos)))
    for b, a in enumerate(infos):
        need(a["idx"] == b and B[b]["idx"] == b, "%s: index in the description" % what)
        fr = abs(int(a["frequency"]))
        keep = np.zeros(nang, bool)
        keep[fr % nang] = keep[-fr % nang] = True
        need(spec[b][~keep].max(initial=0.0) <= 1e-6 * max(1.0, spec[b].max()),
             lambda: "%s: element %d is said to have frequency %s but contains others" % (what, b, a["frequency"]))
        if "maximum_frequency" in kw and not cont:
            need(fr <= kw["maximum_frequency"], "%s: frequency %d exceeds the maximum" % (what, fr))
        need(any(abs(a["radius"] - r) < 1e-9 for r in rings), "%s: radius of element %d" % (what, b))
        d2 = {k: v for k, v in B[b].items()}
        need(d2.keys() == a.keys() and all(d2[k] == a[k] for k in a), lambda: "%s: B[%d] and iteration disagree: %s / %s" % (what, b, d2, a))
        # the radial profile of the element
        r, s = a["radius"], a["sigma"]
        line = B.sample(np.stack([radii * np.cos(0.37), radii * np.sin(0.37)]))[:, :, b]
        prof = np.exp(-0.5 * (radii - r) ** 2 / s ** 2)
        ratio = line / np.maximum(prof, 1e-300)
        ok = prof > 1e-6
        if ok.sum() > 1:
            q = ratio[..., ok]
            need(np.abs(q - q[..., :1]).max() <= 1e-6 * max(1.0, np.abs(q).max()), "%s: radial profile of element %d" % (what, b))
    # masks and subsets of points
    mask = g.random(dim) < 0.5
    if mask.any():
        same(B.sample_masked(P, mask), K[:, :, mask], "%s: sample_masked" % what, 1e-9)
    sub = g.permutation(P.shape[1])[:max(1, P.shape[1] // 2)]
    same(B.sample(P[:, sub]), K[..., sub], "%s: sampling fewer points" % what, 1e-9)
    out = np.full(K.shape, 7.0)
    same(B.sample(P, out=out), K, "%s: sampling into a given array" % what, 1e-9)
    return dim >= 2 and sp["k"] != "triv"


FACETS = [Facet("bases", s_basis, c_basis, 4800, rule="two or more elements over a space that moves the plane")]
