"""P04: restriction keeps the action; disentangling preserves it."""
import json
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (groups, group, elements, el, reps, rep, rep_size, all_elements, order, SEED, subgroup_ids, sub_spec,
                  sub_embed, sgid, L, spaces, space, gspec, ftype, field_lists, tensor, gt, PI, test_elements)
from .ref import same, ref_rep, blockdiag, plane, R, is_grid, act, fiber, pixel_move
from .p02 import check_rep

RULE = "non-trivial: the (last) subgroup element is not the identity and the representation is not one-dimensional trivial."


def allreps(gs, **kw):
    if gs[0] == "O2":
        return st.one_of(reps(gs, **kw), st.integers(0, gs[1]).map(lambda k: ["ind", [None, -1], [k]]))
    return reps(gs, **kw)


# ---- representations --------------------------------------------------------------------------------------------
def s_rep():
    def chain(g):
        one = subgroup_ids(g, 8).flatmap(lambda s: finish(g, [s]))
        two = subgroup_ids(g, 8).flatmap(lambda s: subgroup_ids(sub_spec(g, s), 6).flatmap(lambda t: finish(g, [s, t])))
        return st.one_of(one, one, two)

    def finish(g, ids):
        h = g
        for s in ids:
            h = sub_spec(h, s)
        return st.fixed_dictionaries({"g": st.just(g), "ids": st.just(ids), "r": allreps(g, maxsize=14, depth=2, restricted=False),
                                      "a": elements(h), "b": elements(h)})
    return groups(maxN=12, maxm=7).flatmap(chain)


def c_rep(c):
    gs = c["g"]
    G = group(gs)
    r = rep(gs, c["r"], G)
    Q0 = np.array(r.change_of_basis, copy=True)
    q, h, up = r, gs, []
    for s in c["ids"]:
        H, m, _ = q.group.subgroup(sgid(s))
        q2 = q.restrict(sgid(s))
        need(q2.group == H, "restriction to %r lives in a different group" % (s,))
        up.append(m)
        q, h = q2, sub_spec(h, s)
    need(q.size == r.size, "restriction changed the size from %d to %d" % (r.size, q.size))
    what = "restriction of %s of %s to %s" % (c["r"], gs, c["ids"])
    for x in [c["a"], c["b"]] + ((all_elements(h) or [])[:8]):
        e, hh = x, None
        specs = [gs]
        for s in c["ids"]:
            specs.append(sub_spec(specs[-1], s))
        e = x
        for s, sp in reversed(list(zip(c["ids"], specs[:-1]))):
            e = sub_embed(sp, s, e)
        same(np.asarray(q(el(h, x)), float), ref_rep(gs, c["r"], e), "%s at %r" % (what, x), 1e-6)
        # and through the library's own embedding
        y = el(h, x)
        for m in reversed(up):
            y = m(y)
        same(np.asarray(q(el(h, x)), float), np.asarray(r(y), float), "%s at %r (library embedding)" % (what, x), 1e-6)
    check_rep(h, q, q.group, c["a"], c["b"], what)
    need(np.array_equal(Q0, r.change_of_basis), "restricting modified the original representation")
    return q.size > 1 and order(h) != 1


# ---- disentangle ------------------------------------------------------------------------------------------------
def s_dis():
    return groups(maxN=8, maxm=4).flatmap(lambda g: st.fixed_dictionaries(
        {"g": st.just(g), "r": reps(g, maxsize=14, depth=3, cob=("perm", "perm", "sign", "orth")),
         "s": st.one_of(st.none(), subgroup_ids(g, 6)), "k": st.integers(0, 7)}))


def c_dis(c):
    gs = c["g"]
    r = rep(gs, c["r"])
    h = gs
    if c["s"] is not None:
        r = r.restrict(sgid(c["s"]))
        h = sub_spec(gs, c["s"])
    P, parts = L()["g"].disentangle(r)
    P = np.asarray(P, float)
    need(P.shape == (r.size, r.size), "disentangle: change of basis of shape %s" % (P.shape,))
    need(sum(x.size for x in parts) == r.size, "disentangle: sizes of the parts")
    need(abs(abs(np.linalg.det(P)) - 1) < 1e-6, "disentangle: change of basis is not invertible/orthogonal")
    for e in test_elements(h):
        e = el(h, e)
        same(P @ np.asarray(r(e), float) @ np.linalg.inv(P), blockdiag([np.asarray(x(e), float) for x in parts]),
             "disentangled %s of %s restricted to %r at %r" % (c["r"], gs, c["s"], e), 1e-6)
    for x in parts:
        need(x.group == r.group, "disentangle: part of another group")
    need(sorted(n for x in parts for n in x.irreps) == sorted(r.irreps), "disentangle: irreps changed")
    return len(parts) > 1


# ---- spaces, types, tensors -------------------------------------------------------------------------------------
def space_ids(sp):
    gs = gspec(sp)
    if sp["k"] == "triv":
        return st.just(1)
    return subgroup_ids(gs, 8)


def s_space():
    def f(sp):
        gs = gspec(sp)
        return space_ids(sp).flatmap(lambda s: st.fixed_dictionaries(
            {"sp": st.just(sp), "s": st.just(s), "h": st.lists(elements(sub_spec(gs, s)), min_size=1, max_size=4),
             "fields": field_lists(gs, 3, 6, 12, depth=1), "seed": SEED, "n": st.integers(3, 9)}))
    return spaces(maxN=8, maxm=4).flatmap(f)


def smooth(seed, B, C, n):
    """smooth image so that interpolation differences stay tiny"""
    g = np.random.default_rng(seed)
    y, x = np.mgrid[0:n, 0:n] / max(n - 1, 1) - 0.5
    out = np.zeros((B, C, n, n))
    for b in range(B):
        for k in range(C):
            a = g.standard_normal(6)
            out[b, k] = a[0] + a[1] * x + a[2] * y + a[3] * x * y + a[4] * x * x + a[5] * y * y
    return out


def c_space(c):
    sp, s = c["sp"], c["s"]
    gs = gspec(sp)
    S = space(sp)
    hs = sub_spec(gs, s)
    T, up, down = S.restrict(sgid(s))
    need(T.fibergroup.order() == order(hs), "restricted space has a group of order %s" % T.fibergroup.order())
    ft = ftype(sp, c["fields"], S)
    before = [x.name for x in ft.representations]
    rt = ft.restrict(sgid(s))
    need(len(rt) == len(ft) and rt.size == ft.size, "restricting a field type changed its number of fields")
    need(rt.gspace == T, "restricted field type lives in a different space than the restricted space")
    n = c["n"]
    img = smooth(c["seed"], 1, ft.size, n)
    x = gt(img, ft)
    keep = x.tensor.clone()
    y = x.restrict(sgid(s))
    need(y.type == rt, "restricted tensor has another type than the restricted type")
    need(bool((y.tensor == keep).all()), "restricting a tensor changed its data")
    mod = L()["n"].RestrictionModule(ft, sgid(s))
    z = mod(x)
    need(z.type == rt and bool((z.tensor == keep).all()), "RestrictionModule")
    hit = False
    c0 = (n - 1) / 2.0
    rr, cc = np.mgrid[0:n, 0:n]
    inner = (rr - c0) ** 2 + (cc - c0) ** 2 <= max(0.0, c0 - 0.75) ** 2
    for h in c["h"]:
        e_h = el(hs, h)
        g = sub_embed(gs, s, h)
        eg = el(gs, g)
        a = fiber(rt.representations, e_h, img)
        b = fiber(ft.representations, eg, img)
        same(a, b, "channel action of %r in %s restricted to %r" % (h, sp, s), 1e-6)
        # action on the plane through the library transform
        ta = y.transform(e_h).tensor.numpy()
        A = plane(sp, g)
        if is_grid(A, 1e-9):
            same(ta, pixel_move(b, A), "transform by %r in %s restricted to %r" % (h, sp, s), 1e-4)
        else:
            tb = x.transform(eg).tensor.numpy()
            same(ta[..., inner], tb[..., inner], "transform by %r in %s restricted to %r" % (h, sp, s), 2e-3)
        hit = hit or np.abs(A - np.eye(2)).max() > 1e-9
    need([q.name for q in ft.representations] == before, "restricting modified the original type")
    return hit


FACETS = [
    Facet("representations", s_rep, c_rep, 3200, rule="dimension > 1 and non-trivial subgroup, single or two-step chains"),
    Facet("disentangle", s_dis, c_dis, 2400, rule="more than one part"),
    Facet("spaces", s_space, c_space, 1600, rule="a subgroup element that moves the plane"),
]
