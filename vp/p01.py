"""P01: group laws, planar model, subgroup maps."""
import math
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (groups, group, elements, el, subgroup_ids, sgid, sub_spec, sub_embed, all_elements, order, angles, L)
from .ref import iso, same, raises

RULE = "a case counts as non-trivial when at least one element differs from the identity."
TOL = 1e-9


def valid(gs, G, x, what):
    """x is a member of the group, both by the library and structurally"""
    k = gs[0]
    if k == "C":
        ok = isinstance(x, (int, np.integer)) and 0 <= x < gs[1]
    elif k == "D":
        ok = isinstance(x, tuple) and len(x) == 2 and x[0] in (0, 1) and 0 <= x[1] < gs[1]
    elif k == "SO2":
        ok = isinstance(x, float)
    else:
        ok = isinstance(x, tuple) and len(x) == 2 and x[0] in (0, 1) and isinstance(x[1], float)
    need(ok and G.is_element(x), "%s gave %r, which is not an element of %s" % (what, x, gs), "member")


def spec(x):
    return list(x) if isinstance(x, tuple) else x


# ---- laws -------------------------------------------------------------------------------------------------------
def s_laws():
    return groups(maxN=40, maxm=4).flatmap(lambda g: st.fixed_dictionaries(
        {"g": st.just(g), "a": elements(g), "b": elements(g), "c": elements(g), "turn": st.integers(-3, 3)}))


def c_laws(c):
    gs = c["g"]
    G = group(gs)
    A, B, C = (el(gs, c[k]) for k in "abc")
    ab = G.combine(A, B)
    valid(gs, G, ab, "combine(%r,%r)" % (A, B))
    same(iso(gs, ab), iso(gs, A) @ iso(gs, B), "combine(%r,%r) as a planar isometry" % (A, B), 1e-8)
    bc = G.combine(B, C)
    need(G.equal(G.combine(ab, C), G.combine(A, bc)), "composition of %r %r %r is not associative" % (A, B, C))
    e = G.identity
    valid(gs, G, e, "identity")
    same(iso(gs, e), np.eye(2), "identity")
    need(G.equal(G.combine(e, A), A) and G.equal(G.combine(A, e), A), "identity is not neutral for %r" % (A,))
    ia = G.inverse(A)
    valid(gs, G, ia, "inverse(%r)" % (A,))
    same(iso(gs, ia), iso(gs, A).T, "inverse(%r) as a planar isometry" % (A,), 1e-8)
    need(G.equal(G.combine(A, ia), e) and G.equal(G.combine(ia, A), e), "inverse(%r)=%r does not cancel" % (A, ia))
    # equality means the same isometry
    want = bool(np.abs(iso(gs, A) - iso(gs, B)).max() < 1e-10)
    gap = np.abs(iso(gs, A) - iso(gs, B)).max()
    if want or gap > 1e-6:
        need(bool(G.equal(A, B)) == want, "equal(%r,%r) is %s" % (A, B, not want), "equal")
    need(bool(G.equal(A, B)) == bool(G.equal(B, A)), "equal is not symmetric")
    need(G.equal(A, A), "equal is not reflexive")
    if gs[0] in ("SO2", "O2"):
        T = 2 * math.pi * c["turn"]
        A2 = A + T if gs[0] == "SO2" else (A[0], A[1] + T)
        need(G.equal(A, A2), "%r and %r differ by whole turns but are not equal" % (A, A2), "equal")
    need(G.is_element(A), "is_element(%r) is False" % (A,))
    need(G.order() == order(gs), "order() is %s" % G.order())
    return A != G.identity and B != G.identity


# ---- membership -------------------------------------------------------------------------------------------------
def s_member():
    return groups(maxN=40, maxm=4).flatmap(lambda g: st.fixed_dictionaries(
        {"g": st.just(g), "v": st.one_of(st.integers(-60, 60), angles(),
                                         st.tuples(st.integers(-2, 3), st.one_of(st.integers(-60, 60), angles())).map(list)),
         "tup": st.booleans()}))


def c_member(c):
    gs = c["g"]
    G = group(gs)
    v = c["v"]
    if isinstance(v, list):
        v = tuple(v) if c["tup"] else v
    k = gs[0]
    if k == "C":
        want = isinstance(v, int) and 0 <= v < gs[1]
    elif k == "D":
        want = isinstance(v, tuple) and isinstance(v[1], int) and v[0] in (0, 1) and 0 <= v[1] < gs[1]
    elif k == "SO2":
        want = isinstance(v, float)
    else:
        want = isinstance(v, tuple) and isinstance(v[1], float) and v[0] in (0, 1)
    need(bool(G.is_element(v)) == want, "is_element(%r) is %s for %s" % (v, not want, gs))
    return True


# ---- finite enumeration -----------------------------------------------------------------------------------------
def s_enum():
    return groups(maxN=40, continuous=True, maxm=6).map(lambda g: {"g": g})


def c_enum(c):
    gs = c["g"]
    G = group(gs)
    te = list(G.testing_elements())
    for t in te:
        valid(gs, G, t, "testing_elements()")
    if order(gs) > 0:
        els = list(G.elements)
        need(len(els) == order(gs), "elements lists %d elements" % len(els))
        need(sorted(spec(x) for x in els) == sorted(all_elements(gs)), "elements is not the whole group")
        need(len({str(spec(x)) for x in te}) == order(gs), "testing_elements() does not list the whole finite group")
        need(len(G.elements_names) == len(els) and len(set(G.elements_names)) == len(els), "element names not unique")
        ab = all(G.equal(G.combine(x, y), G.combine(y, x)) for x in els for y in els)
        need(ab == ((gs[0] == "C") or gs[1] <= 2), "commutativity is %s" % ab)
        need(not G.abelian or ab, "group is advertised abelian but is not")
        need(not G.continuous, "finite group advertised continuous")
    else:
        need(G.continuous and G.elements is None, "continuous group advertises a list of elements")
        fl = {x[0] for x in te} if gs[0] == "O2" else {0}
        need(gs[0] != "O2" or fl == {0, 1}, "testing elements of O(2) miss reflections or rotations")
        need(len(te) > 8, "testing elements")
    return True


# ---- subgroups --------------------------------------------------------------------------------------------------
def s_sub():
    return groups(maxN=24, maxm=4).flatmap(lambda g: subgroup_ids(g, 14).flatmap(lambda s: st.fixed_dictionaries(
        {"g": st.just(g), "s": st.just(s), "h1": elements(sub_spec(g, s)), "h2": elements(sub_spec(g, s)),
         "p": elements(g), "turn": st.integers(-3, 3)})))


def ref_child(gs, s, A):
    """reference: None unless A lies in the subgroup (compared as isometries); else the list of matching elements"""
    hs = sub_spec(gs, s)
    if hs[0] in ("C", "D"):
        out = []
        for h in all_elements(hs):
            d = np.abs(iso(gs, sub_embed(gs, s, h)) - iso(gs, spec(A))).max()
            if d < 1e-10:
                out.append(h)
            elif d < 1e-6:
                return "unclear"
        return out[0] if out else None
    a = s[0]
    if a is None:
        return None if A[0] else A[1]
    return [A[0], A[1] - A[0] * a]


def c_sub(c):
    gs, s = c["g"], c["s"]
    G = group(gs)
    hs = sub_spec(gs, s)
    H, up, down = G.subgroup(sgid(s))
    need(H.order() == order(hs), "subgroup %r of %s has order %s, expected %s" % (s, gs, H.order(), order(hs)), "suborder")
    need(type(H).__name__ == {"C": "CyclicGroup", "D": "DihedralGroup", "SO2": "SO2", "O2": "O2"}[hs[0]],
         "subgroup %r of %s is a %s" % (s, gs, type(H).__name__), "subtype")
    h1, h2 = el(hs, c["h1"]), el(hs, c["h2"])
    a1, a2 = up(h1), up(h2)
    valid(gs, G, a1, "embedding of %r from subgroup %r" % (h1, s))
    same(iso(gs, a1), iso(gs, sub_embed(gs, s, c["h1"])), "embedding of %r from subgroup %r as isometry" % (h1, s), 1e-8)
    need(G.equal(up(H.combine(h1, h2)), G.combine(a1, a2)), "embedding of subgroup %r is not a homomorphism at %r,%r" % (s, h1, h2))
    need(bool(G.equal(a1, a2)) == bool(H.equal(h1, h2)), "embedding of subgroup %r is not injective at %r,%r" % (s, h1, h2))
    need(G.equal(up(H.identity), G.identity), "embedding moves the identity")
    # back: embedded elements (also written with extra whole turns or as a product) return to themselves
    variants = [a1, G.combine(a1, G.identity), G.combine(G.combine(a1, a2), G.inverse(a2))]
    if gs[0] in ("SO2", "O2"):
        T = 2 * math.pi * c["turn"]
        variants.append(a1 + T if gs[0] == "SO2" else (a1[0], a1[1] + T))
    for v in variants:
        b = down(v)
        need(b is not None, "element %r of subgroup %r (embedded %r) is not recognised when mapped back" % (h1, s, v), "childnone")
        valid(hs, H, b, "mapping %r back into subgroup %r" % (v, s))
        need(H.equal(b, h1), "mapping %r back into subgroup %r gives %r instead of %r" % (v, s, b, h1), "childvalue")
    # any parent element
    p = el(gs, c["p"])
    want = ref_child(gs, s, p)
    if not isinstance(want, str):
        b = down(p)
        if want is None:
            need(b is None, "%r is not in subgroup %r of %s but maps back to %r" % (p, s, gs, b), "childfalse")
        else:
            need(b is not None, "%r is in subgroup %r of %s but maps back to nothing" % (p, s, gs), "childnone")
            valid(hs, H, b, "mapping %r back into subgroup %r" % (p, s))
            need(H.equal(b, el(hs, want)), "%r maps back to %r instead of %r" % (p, b, want), "childvalue")
            need(G.equal(up(b), p), "embedding the preimage of %r gives %r" % (p, up(b)), "childvalue")
    return h1 != H.identity


FACETS = [
    Facet("laws", s_laws, c_laws, 8000, rule="random triples, orders up to 40, angles with whole turns"),
    Facet("member", s_member, c_member, 4000, rule="arbitrary values tried as elements"),
    Facet("enum", s_enum, c_enum, 400, rule="whole-group enumeration"),
    Facet("subgroups", s_sub, c_sub, 9000, rule="subgroup element is not the identity"),
]
