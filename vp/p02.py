"""P02: representations are homomorphisms with the advertised decomposition."""
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (groups, group, elements, el, irrep_ids, irreps, reps, rep, rep_size, test_elements, all_elements, order,
                  SEED, rng, basis_matrix, L, leaf_reps, irrep_size)
from .ref import (same, ref_irrep, ref_rep, ref_combine, ref_inverse, blockdiag, haar, rank_of)

RULE = "non-trivial: the representation has dimension > 1 or is not the trivial one."


# ---- irreps -----------------------------------------------------------------------------------------------------
def s_irr():
    return groups(maxN=20, maxm=12).flatmap(lambda g: st.fixed_dictionaries(
        {"g": st.just(g), "i": st.sampled_from(irrep_ids(g)), "j": st.sampled_from(irrep_ids(g)),
         "a": elements(g), "b": elements(g), "hi": st.integers(0, 9)}))


def c_irr(c):
    gs, i, j = c["g"], list(c["i"]), list(c["j"])
    G = group(gs)
    if gs[0] in ("SO2", "O2") and c["hi"] >= 8:       # frequencies beyond the requested maximum are built on demand
        i[-1] += c["hi"]
        if gs[0] == "O2":
            i[0] = 1
    r, q = G.irrep(*i), G.irrep(*j)
    a, b = el(gs, c["a"]), el(gs, c["b"])
    A, B = np.asarray(r(a), float), np.asarray(r(b), float)
    need(A.shape == (r.size, r.size), "irrep %s: matrix shape %s but size %d" % (i, A.shape, r.size))
    need(r.size == irrep_size(gs, i), "irrep %s of %s has size %d" % (i, gs, r.size))
    same(A, ref_irrep(gs, i, c["a"]), "irrep %s of %s at %r" % (i, gs, a), 1e-8)
    same(np.asarray(r(G.combine(a, b)), float), A @ B, "irrep %s of %s: product" % (i, gs), 1e-8)
    same(np.asarray(r(G.inverse(a)), float), np.linalg.inv(A), "irrep %s of %s: inverse" % (i, gs), 1e-8)
    same(np.asarray(r(G.identity), float), np.eye(r.size), "irrep %s of %s: identity" % (i, gs), 1e-12)
    same(A @ A.T, np.eye(r.size), "irrep %s of %s: orthogonality" % (i, gs), 1e-9)
    same(r.character(a), np.trace(A), "character of irrep %s of %s at %r" % (i, gs, a), 1e-8)
    need(r.irreducible, "irrep not flagged irreducible")
    need(r.name in G.irreps and G.irreps[r.name] is r, "irrep %s not listed under its name" % (i,))
    need(list(r.irreps) == [r.name], "irrep %s does not list itself" % (i,))
    need(r.is_trivial() == (not any(i)), "is_trivial of irrep %s is %s" % (i, r.is_trivial()))
    need(r.attributes.get("frequency") == i[-1], "irrep %s advertises frequency %s" % (i, r.attributes.get("frequency")))
    H = haar(gs, i[-1] + j[-1] + 1)
    ch = np.array([np.trace(np.asarray(r(el(gs, h)), float)) for h in H])
    ch2 = np.array([np.trace(np.asarray(q(el(gs, h)), float)) for h in H])
    n = float(np.mean(ch * ch))
    need(abs(n - r.sum_of_squares_constituents) < 1e-6 and round(n) in (1, 2),
         "irrep %s of %s is not irreducible of the advertised type: <chi,chi>=%g, advertised %s"
         % (i, gs, n, r.sum_of_squares_constituents))
    # dimension of the commutant = dimension of the fixed space of conjugation: 1 (real) or 2 (complex type)
    m = float(np.mean(ch * ch2))
    need(abs(m - (n if i == j else 0)) < 1e-6, "irreps %s and %s of %s: <chi,chi'>=%g" % (i, j, gs, m))
    return any(i)


def s_complete():
    return groups(maxN=40, continuous=False).map(lambda g: {"g": g})


def c_complete(c):
    gs = c["g"]
    G = group(gs)
    n = sum(r.size ** 2 / r.sum_of_squares_constituents for r in G.irreps.values())
    need(abs(n - order(gs)) < 1e-9, "sum of squares of irrep dimensions is %g for a group of order %d" % (n, order(gs)))
    need(len({r.name for r in G.irreps.values()}) == len(irrep_ids(gs)), "%d irreps listed" % len(G.irreps))
    for k, r in G.irreps.items():
        need(k == r.name and r.group is G, "irrep %s is registered under a different name or group" % k)
    for k, r in G.representations.items():
        need(k == r.name, "representation %s registered under %s" % (r.name, k))
    t = G.trivial_representation
    need(t.is_trivial() and all(np.allclose(t(e), 1) for e in G.elements), "trivial representation")
    return order(gs) > 1


# ---- arbitrary expressions --------------------------------------------------------------------------------------
def s_expr():
    return groups(maxN=8, maxm=5).flatmap(lambda g: st.fixed_dictionaries(
        {"g": st.just(g), "r": reps(g, maxsize=20, depth=3), "a": elements(g), "b": elements(g)}))


def check_rep(gs, r, G, a, b, what):
    A, B = np.asarray(r(el(gs, a)), float), np.asarray(r(el(gs, b)), float)
    ea, eb = el(gs, a), el(gs, b)
    need(A.shape == (r.size, r.size), "%s: matrix %s but size %d" % (what, A.shape, r.size))
    same(np.asarray(r(G.identity), float), np.eye(r.size), "%s: identity" % what, 1e-8)
    same(np.asarray(r(G.combine(ea, eb)), float), A @ B, "%s: product of %r and %r" % (what, a, b), 1e-7)
    same(np.asarray(r(G.inverse(ea)), float), np.linalg.inv(A), "%s: inverse of %r" % (what, a), 1e-7)
    same(r.character(ea), np.trace(A), "%s: character" % what, 1e-7)
    irr = [G.irreps[n] for n in r.irreps]
    need(sum(x.size for x in irr) == r.size, "%s: sizes of the listed irreps do not add up" % what)
    Q, Qi = np.asarray(r.change_of_basis, float), np.asarray(r.change_of_basis_inv, float)
    same(Q @ Qi, np.eye(r.size), "%s: change_of_basis_inv" % what, 1e-7)
    D = blockdiag([np.asarray(x(ea), float) for x in irr])
    same(Q @ D @ Qi, A, "%s: change of basis times block sum of irreps at %r" % (what, a), 1e-7)
    if r.is_trivial():
        same(A, np.eye(1), "%s: is_trivial but does not act trivially" % what)
    need(r.contains_trivial() == any(x.is_trivial() for x in irr), "%s: contains_trivial" % what)
    return A


def c_expr(c):
    gs, spec = c["g"], c["r"]
    G = group(gs)
    r = rep(gs, spec, G)
    what = "representation %s of %s" % (spec, gs)
    need(r.size == rep_size(gs, spec), "%s has size %d, expected %d" % (what, r.size, rep_size(gs, spec)))
    A = check_rep(gs, r, G, c["a"], c["b"], what)
    same(A, ref_rep(gs, spec, c["a"]), "%s at %r" % (what, c["a"]), 1e-7)
    # multiplicity of the trivial irrep by averaging
    if order(gs) > 0:
        m = np.mean([np.trace(np.asarray(r(el(gs, e)), float)) for e in all_elements(gs)])
        n = sum(1 for x in r.irreps if G.irreps[x].is_trivial())
        need(abs(m - n) < 1e-6, "%s lists %d trivial irreps, averaging gives %g" % (what, n, m))
        need(r.contains_trivial() == (round(m) > 0), "%s: contains_trivial is %s" % (what, r.contains_trivial()))
    need(bool(r.irreducible) <= (len(r.irreps) == 1), "%s flagged irreducible" % what)
    return r.size > 1 or not r.is_trivial()


# ---- the ways of combining --------------------------------------------------------------------------------------
def s_comb():
    return groups(maxN=8, maxm=4).flatmap(lambda g: st.fixed_dictionaries(
        {"g": st.just(g), "rs": st.lists(reps(g, maxsize=8, depth=1), min_size=1, max_size=3),
         "kind": st.sampled_from(["perm", "orth", "gen", None]), "seed": SEED, "a": elements(g), "b": elements(g)}))


def c_comb(c):
    gs = c["g"]
    G = group(gs)
    g = L()["g"]
    rs = [rep(gs, x, G) for x in c["rs"]]
    a = el(gs, c["a"])
    ms = [np.asarray(x(a), float) for x in rs]
    n = sum(x.size for x in rs)
    if c["kind"] is None:
        s = g.directsum(rs)
        same(np.asarray(s(a), float), blockdiag(ms), "directsum", 1e-8)
    else:
        Q = basis_matrix(c["kind"], c["seed"], n)
        Q0 = Q.copy()
        s = g.directsum(rs, change_of_basis=Q, name="p02_tmp")
        same(np.asarray(s(a), float), Q @ blockdiag(ms) @ np.linalg.inv(Q), "directsum with change of basis", 1e-7)
        t = g.change_basis(g.directsum(rs), Q, "p02_tmp2")
        same(np.asarray(t(a), float), Q @ blockdiag(ms) @ np.linalg.inv(Q), "change_basis", 1e-7)
        need(np.array_equal(Q, Q0), "the change of basis passed in was modified")
        check_rep(gs, t, G, c["a"], c["b"], "change_basis")
    check_rep(gs, s, G, c["a"], c["b"], "directsum")
    if len(rs) >= 2:
        p = rs[0] + rs[1]
        same(np.asarray(p(a), float), blockdiag(ms[:2]), "sum operator", 1e-8)
    for x, m in zip(rs, ms):
        same(np.asarray(x(a), float), m, "operand after combining", 0)
    return n > 1


# ---- built from explicit matrices -------------------------------------------------------------------------------
def s_mat():
    return groups(maxN=8, continuous=False).flatmap(lambda g: st.fixed_dictionaries(
        {"g": st.just(g), "rs": st.lists(irreps(g), min_size=1, max_size=3), "seed": SEED}))


def c_mat(c):
    gs = c["g"]
    G = group(gs)
    from e2cnn.group.representation import build_from_discrete_group_representation as bfd
    n = sum(rep_size(gs, x) for x in c["rs"])
    if n > 6:
        return False
    Q = basis_matrix("orth", c["seed"], n)
    mats = {el(gs, e): Q @ blockdiag([ref_irrep(gs, x[1:], e) for x in c["rs"]]) @ Q.T for e in all_elements(gs)}
    np.random.seed(c["seed"])
    r = bfd(mats, "p02_mat", G, [])
    for e in all_elements(gs):
        same(np.asarray(r(el(gs, e)), float), mats[el(gs, e)], "representation built from matrices", 1e-6)
        irr = [G.irreps[x] for x in r.irreps]
        D = blockdiag([np.asarray(x(el(gs, e)), float) for x in irr])
        same(r.change_of_basis @ D @ r.change_of_basis_inv, mats[el(gs, e)], "decomposition of a representation built from matrices", 1e-4)
        same(r.character(el(gs, e)), np.trace(mats[el(gs, e)]), "character", 1e-6)
    return n > 1


FACETS = [
    Facet("irreps", s_irr, c_irr, 3200, rule="the irrep is not the trivial one"),
    Facet("complete", s_complete, c_complete, 120, rule="group of order > 1"),
    Facet("expressions", s_expr, c_expr, 5000, rule="nested expression of dimension > 1 or non-trivial"),
    Facet("combine", s_comb, c_comb, 2000, rule="total dimension > 1"),
    Facet("matrices", s_mat, c_mat, 800, rule="dimension > 1"),
]
