"""P03: regular / quotient / induced representations by their definitions; honest capability labels."""
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (groups, group, elements, el, irrep_ids, irreps, reps, rep, rep_size, all_elements, order, SEED,
                  subgroup_ids, sub_spec, sub_embed, sgid, basis_matrix, L, leaf_reps, irrep_size, test_elements, tag)
from .ref import same, ref_rep, ref_irrep, ref_combine, ref_inverse, iso, PI

RULE = "non-trivial: group of order > 1 (regular), proper subgroup (quotient, induced), field of dimension > 1 (labels)."


def s_reg():
    return groups(maxN=16, continuous=False).map(lambda g: {"g": g})


def c_reg(c):
    gs = c["g"]
    G = group(gs)
    r = G.regular_representation
    for e in all_elements(gs):
        M = np.zeros((order(gs), order(gs)))
        els = [list(x) if isinstance(x, tuple) else x for x in G.elements]
        for i, g in enumerate(els):
            M[els.index(ref_combine(gs, e, g)), i] = 1
        same(np.asarray(r(el(gs, e)), float), M, "regular representation of %s at %r" % (gs, e), 1e-8)
    need(r is G.representations["regular"], "regular representation is not the registered one")
    return order(gs) > 1


# ---- induced (the quotient is the case of the trivial irrep) -----------------------------------------------------
def s_ind():
    return groups(maxN=12, continuous=False).flatmap(lambda g: subgroup_ids(g).flatmap(lambda s: st.fixed_dictionaries(
        {"g": st.just(g), "s": st.just(s), "i": st.one_of(st.none(), st.sampled_from(irrep_ids(sub_spec(g, s))))})))


def c_ind(c):
    gs, s = c["g"], c["s"]
    G = group(gs)
    hs = sub_spec(gs, s)
    if c["i"] is None:
        r = G.quotient_representation(sgid(s))
        irr = [0] if hs[0] == "C" else [0, 0]
        d = 1
    else:
        irr = c["i"]
        d = irrep_size(hs, irr)
        r = rep(gs, ["ind", s, irr], G)
    what = "representation of %s induced from irrep %s of subgroup %r" % (gs, irr, s)
    check_induced(gs, s, G, r, hs, irr, d, what)
    return order(hs) < order(gs)


def check_induced(gs, s, G, r, hs, irr, d, what):
    n = order(gs) // order(hs)
    need(r.size == n * d, "%s has size %d, expected %d" % (what, r.size, n * d))
    els = all_elements(gs)
    M = {}
    perm = {}
    for e in els:
        A = np.asarray(r(el(gs, e)), float).reshape(n, d, n, d)
        M[str(e)] = A
        nz = np.abs(A).max(axis=(1, 3)) > 1e-6
        need((nz.sum(0) == 1).all() and (nz.sum(1) == 1).all(), "%s does not permute blocks at %r" % (what, e))
        perm[str(e)] = nz.argmax(axis=0)            # block i goes to block perm[i]
        for i in range(n):
            b = A[perm[str(e)][i], :, i, :]
            same(b @ b.T, np.eye(d), "%s: block of %r is not orthogonal" % (what, e), 1e-7)
    # homomorphism and transitivity of the coset action
    need({int(perm[str(e)][0]) for e in els} == set(range(n)), "%s does not act transitively on its blocks" % what)
    emb = [sub_embed(gs, s, h) for h in all_elements(hs)]
    embs = sorted(str(e) for e in emb)
    ok = None
    for i in range(n):
        stab = sorted(str(e) for e in els if perm[str(e)][i] == i)
        if stab == embs:
            ok = i
            break
    need(ok is not None, "%s: no block is stabilised by exactly the subgroup" % what)
    for h, e in zip(all_elements(hs), emb):
        chi = np.trace(M[str(e)][ok, :, ok, :])
        same(chi, np.trace(ref_irrep(hs, irr, h)), "%s: action of subgroup element %r inside its block" % (what, h), 1e-7)
    for a in els[:6]:
        for b in els[-6:]:
            ab = ref_combine(gs, a, b)
            same(M[str(ab)].reshape(n * d, n * d), M[str(a)].reshape(n * d, n * d) @ M[str(b)].reshape(n * d, n * d),
                 "%s: product" % what, 1e-7)


def s_indo2():
    return st.fixed_dictionaries({"m": st.integers(1, 8), "k": st.integers(0, 8), "a": st.tuples(
        st.integers(0, 1), st.floats(-7, 7).map(lambda v: round(v, 4))).map(list), "b": st.tuples(
        st.integers(0, 1), st.floats(-7, 7).map(lambda v: round(v, 4))).map(list)})


def c_indo2(c):
    m, k = c["m"], min(c["k"], c["m"])
    gs = ["O2", m]
    G = group(gs)
    r = rep(gs, ["ind", [None, -1], [k]], G)
    d = 1 if k == 0 else 2
    need(r.size == 2 * d, "O(2) representation induced from SO(2) irrep %d has size %d" % (k, r.size))
    a, b = tuple(c["a"]), tuple(c["b"])
    A, B = np.asarray(r(a), float), np.asarray(r(b), float)
    same(np.asarray(r(G.combine(a, b)), float), A @ B, "O(2) induced representation: product", 1e-7)
    for x, X in ((a, A), (b, B)):
        Y = X.reshape(2, d, 2, d)
        z = np.abs(Y).max(axis=(1, 3))
        zero = (z[0, 1], z[1, 0]) if x[0] == 0 else (z[0, 0], z[1, 1])
        need(max(zero) < 1e-7, "O(2) representation induced from SO(2) does not permute its two blocks at %r" % (x,))
        same(X @ X.T, np.eye(2 * d), "O(2) induced representation is not orthogonal", 1e-7)
        if x[0] == 0:
            same(np.trace(Y[0, :, 0, :]), d * np.cos(k * x[1]), "O(2) induced representation: block character", 1e-7)
    return k > 0


# ---- honest labels ----------------------------------------------------------------------------------------------
def libreps(gs):
    """expressions whose labels come from the library: no user-supplied list of supported nonlinearities"""
    leaf = leaf_reps(gs) if gs[0] in ("C", "D", "SO2") else st.one_of(
        irreps(gs), st.integers(0, gs[1]).map(lambda k: ["ind", [None, -1], [k]]))
    s = st.one_of(leaf, st.lists(leaf, min_size=1, max_size=3).map(lambda x: ["sum", x]))
    return s.filter(lambda r: rep_size(gs, r) <= 16)


def s_lab():
    return groups(maxN=8, maxm=4).flatmap(lambda g: st.fixed_dictionaries(
        {"g": st.just(g), "r": libreps(g), "kind": st.sampled_from(["none", "none", "perm", "orth", "gen", "sign"]),
         "seed": SEED, "post": st.one_of(st.none(), subgroup_ids(g, 6)), "dis": st.booleans()}))


def honest(gs, r, what):
    sup = set(r.supported_nonlinearities)
    es = test_elements(gs, () if gs[0] in ("C", "D") else ())
    G = r.group
    for e in es:
        M = np.asarray(r(el(gs, e)), float)
        if "pointwise" in sup:
            ok = np.abs(M - np.round(M)).max() < 1e-6 and (np.round(M) >= 0).all() and (np.round(M).sum(0) == 1).all()
            need(ok, "%s advertises pointwise nonlinearities but does not permute coordinates at %r" % (what, e), "pointwise")
        if "concatenated" in sup:
            A = np.abs(M)
            ok = np.abs(A - np.round(A)).max() < 1e-6 and (np.round(A).sum(0) == 1).all()
            need(ok, "%s advertises concatenated nonlinearities but does not permute coordinates up to sign at %r" % (what, e), "concatenated")
        if "norm" in sup:
            need(np.abs(M @ M.T - np.eye(r.size)).max() < 1e-6, "%s advertises norm nonlinearities but is not orthogonal at %r" % (what, e), "norm")
        for nl in sup:
            if nl.startswith(("induced_norm_", "induced_gated_")):
                d = int(nl.split("_")[-1])
                need(r.size % d == 0, "%s of size %d advertises %s" % (what, r.size, nl), "induced_norm")
                n = r.size // d
                Y = M.reshape(n, d, n, d)
                z = np.abs(Y).max(axis=(1, 3)) > 1e-6
                need((z.sum(0) == 1).all() and (z.sum(1) == 1).all(), "%s advertises %s but does not permute blocks at %r" % (what, nl, e), "induced_norm")
                need(nl.startswith("induced_gated") or np.abs(M @ M.T - np.eye(r.size)).max() < 1e-6,
                     "%s advertises %s but does not preserve block norms" % (what, nl), "induced_norm")
        if "gate" in sup:
            need(np.abs(M - np.eye(r.size)).max() < 1e-6, "%s advertises use as a gate but is not invariant at %r" % (what, e), "gate")
        if "induced_gate" in sup:
            ok = np.abs(M - np.round(M)).max() < 1e-6 and (np.round(M) >= 0).all() and (np.round(M).sum(0) == 1).all()
            need(ok, "%s advertises use as an induced gate but does not permute coordinates at %r" % (what, e), "induced_gate")


def c_lab(c):
    gs = c["g"]
    G = group(gs)
    g = L()["g"]
    r = rep(gs, c["r"], G)
    what = "%s of %s" % (c["r"], gs)
    if c["kind"] != "none":
        # a change of basis supplied together with a direct sum, or afterwards without stating nonlinearities
        Q = basis_matrix(c["kind"], c["seed"], r.size)
        parts = [rep(gs, x, G) for x in c["r"][1]] if c["r"][0] == "sum" else [r]
        r = g.directsum(parts, change_of_basis=Q, name="p03_" + tag(c))
        what = "direct sum %s with a %s change of basis of %s" % (c["r"], c["kind"], gs)
        honest(gs, g.change_basis(r, Q, "p03b_" + tag(c)), "change of basis of " + what)
    honest(gs, r, what)
    if c["post"] is not None and gs[0] != "O2":
        hs = sub_spec(gs, c["post"])
        q = r.restrict(sgid(c["post"]))
        honest(hs, q, "restriction to %r of %s" % (c["post"], what))
        if c["dis"]:
            for x in g.disentangle(q)[1]:
                honest(hs, x, "disentangled part of the restriction to %r of %s" % (c["post"], what))
    elif c["dis"]:
        for x in g.disentangle(r)[1]:
            honest(gs, x, "disentangled part of %s" % what)
    return r.size > 1


FACETS = [
    Facet("regular", s_reg, c_reg, 64, rule="group order > 1"),
    Facet("induced", s_ind, c_ind, 1500, rule="proper subgroup"),
    Facet("induced_o2", s_indo2, c_indo2, 600, rule="frequency > 0"),
    Facet("labels", s_lab, c_lab, 7000, rule="dimension > 1"),
]
