"""P21: initialisation scales, and descriptions of the weights, against the filters the weights actually produce."""
import itertools, math
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import SEED, L, spaces, space, gspec, ftype, rng, weighted, rep_size, PI
from .ref import same, arr, raises
from . import layers as ly

RULE = "non-trivial: the layer has at least two weights acting in different places or ways."
RULE_H = "non-trivial: at least two weights have different scales."
RULE_D = "non-trivial: some irrep occurs more than once in the input or the output."


def sps():
    return weighted((2, spaces(Ns=[4, 2, 3, 6, 5, 8], maxm=3)), (1, spaces(maxN=9, maxm=4)))


def layer(sp, kinds=("conv", "conv", "tconv", "diff"), **kw):
    def f(k):
        if k == "diff":
            return ly.diff_specs(sp, fields=3, size=5, total=8, strided=False, dil=(1, 1, 1, 2))
        return ly.conv_specs(sp, transposed=k == "tconv", maxk=6, fields=3, size=6, total=9, strided=False).filter(lambda l: ly.conv_cost(l) <= 2500)
    return st.sampled_from(kinds).flatmap(f)


class Atoms:
    """where every single weight acts: unit filters [weights, out, in, taps] and their blocks between irreps"""

    def __init__(self, l, m):
        t = L()["torch"]
        E = m.basisexpansion
        self.n = m.weights.numel()
        gi, go = (l["groups"], 1) if l["kind"] == "tconv" else (1, l["groups"])
        self.ti, self.to = m.in_type.representations[:len(l["in"]) * gi], m.out_type.representations[:len(l["out"]) * go]
        with t.no_grad():
            F = arr(t.stack([E(row) for row in t.eye(self.n)]))  # [n, out, in, points]
        self.F = F
        grp = m.in_type.fibergroup
        self.irr = {}
        place = {}
        for side, reps_ in (("i", self.ti), ("o", self.to)):
            lst, p, ch = [], 0, 0
            for fi, r in enumerate(reps_):
                off = 0
                for k, name in enumerate(r.irreps):
                    s = grp.irreps[name].size
                    lst.append(dict(pos=p, field=fi, idx=k, name=name, lo=ch + off, hi=ch + off + s))
                    p, off = p + 1, off + s
                ch += r.size
            self.irr[side] = lst
        need(F.shape[1] == sum(r.size for r in self.to) and F.shape[2] == sum(r.size for r in self.ti),
             lambda: "the expansion gives a filter of shape %s" % (F.shape,))
        A = np.zeros((F.shape[1],) * 2)
        B = np.zeros((F.shape[2],) * 2)
        p = 0
        for r in self.to:
            A[p:p + r.size, p:p + r.size] = np.linalg.inv(r.change_of_basis)
            p += r.size
        p = 0
        for r in self.ti:
            B[p:p + r.size, p:p + r.size] = r.change_of_basis
            p += r.size
        self.orth = np.allclose(A @ A.T, np.eye(len(A)), atol=1e-6) and np.allclose(B @ B.T, np.eye(len(B)), atol=1e-6)
        self.K = np.einsum("ab,nbcp,cd->nadp", A, F, B, optimize=True)
        self.A, self.B = A, B
        # the pair of irreps every weight connects
        self.at = []
        top = np.abs(self.K).max(axis=3)
        top = np.maximum.reduceat(top, [a["lo"] for a in self.irr["o"]], axis=1)
        top = np.maximum.reduceat(top, [b["lo"] for b in self.irr["i"]], axis=2)
        for k in range(self.n):
            tot = top[k].max()
            hit = [(self.irr["o"][a], self.irr["i"][b]) for a, b in zip(*np.nonzero(top[k] > 1e-3 * tot))]
            need(tot > 1e-3, lambda: "weight %d has no effect" % k)
            need(len(hit) == 1, lambda: "weight %d acts between %d pairs of irreps" % (k, len(hit)))
            self.at.append(hit[0])


# ---- descriptions ------------------------------------------------------------------------------------------------
def s_desc():
    return sps().flatmap(lambda sp: st.fixed_dictionaries({"l": layer(sp), "q": SEED}))


def c_desc(c):
    l = c["l"]
    m = ly.build(l)
    if m is None:
        return False
    E = m.basisexpansion
    A = Atoms(l, m)
    n = A.n
    names = list(E.get_basis_names())
    info = [dict(a) for a in E.get_basis_info()]
    need(E.dimension() == n and len(names) == n and len(info) == n,
         lambda: "%d weights, dimension %d, %d names, %d descriptions" % (n, E.dimension(), len(names), len(info)))
    need(len(set(names)) == n, lambda: "two of the %d weights have the same name: %s" % (n, sorted(x for x in names if names.count(x) > 1)[:1]))
    samename = any(len({id(r) for r in T if r.name == q.name}) > 1 for T in (A.ti, A.to) for q in T)
    g = rng(c["q"])
    idx = range(n) if n <= 30 else sorted(g.permutation(n)[:30])
    for k in idx:
        k = int(k)
        a, b, d = E.get_element_info(k), E.get_element_info(names[k]), info[k]
        need(a["id"] == names[k] and d["id"] == names[k], lambda: "weight %d is called %r, described as %r and %r" % (k, names[k], a["id"], d["id"]))
        need(a["idx"] == k and b["idx"] == k and d["idx"] == k, lambda: "weight %d: index %r, by name %r, in the list %r" % (k, a["idx"], b["idx"], d["idx"]))
        for key in sorted(set(a) | set(b) | set(d)):
            v = [x.get(key, "missing") for x in (a, b, d)]
            need(all(np.array_equal(x, v[0]) for x in v), lambda: "weight %d: attribute %r is %r by index, %r by name, %r in the list" % (k, key, v[0], v[1], v[2]))
        # a description belongs to its reader
        a["in_field_position"] = a["radius"] = a["id"] = "changed by the reader"
        need(E.get_element_info(k)["id"] == names[k], "changing a returned description changes the layer's own")
        o, i = A.at[k]
        what = "%s layer, weight %d (%s)" % (l["kind"], k, names[k])
        for key, want in (("in_field_position", i["field"]), ("out_field_position", o["field"]), ("in_irreps_position", i["pos"]),
                          ("out_irreps_position", o["pos"]), ("in_irrep_idx", i["idx"]), ("out_irrep_idx", o["idx"]),
                          ("in_irrep", i["name"]), ("out_irrep", o["name"])):
            need(b[key] == want, lambda: "%s: %s is %r, but it acts at %r" % (what, key, b[key], want))
        if not samename:
            need(b["in_repr"] == A.ti[i["field"]].name and b["out_repr"] == A.to[o["field"]].name, "%s: representation names" % what)
        need(tuple(b["shape"])[:2] == (o["hi"] - o["lo"], i["hi"] - i["lo"]), lambda: "%s: shape %r" % (what, b["shape"]))
        blk = A.K[k][o["lo"]:o["hi"], i["lo"]:i["hi"]]
        shape(l, m, b, blk, what)
    # distinct attributes: no two weights at the same place with the same attributes and the same filter
    for x, y in itertools.combinations(list(idx)[:12], 2):
        u, v = A.F[x].reshape(-1), A.F[y].reshape(-1)
        if abs(u @ v) > (1 - 1e-6) * np.linalg.norm(u) * np.linalg.norm(v) and l["kind"] != "diff":
            need(info[x]["radius"] != info[y]["radius"] or info[x]["frequency"] != info[y]["frequency"],
                 lambda: "weights %d and %d produce the same filter" % (x, y))
    need(raises(lambda: E.get_element_info(n)) and raises(lambda: E.get_element_info("no such weight")), "a weight that does not exist is described")
    return n >= 2


def shape(l, m, attr, blk, what):
    """radial profile and angular frequency of one unit filter, [o, i, taps]"""
    f = abs(int(attr["frequency"]))
    O, I, P = blk.shape
    K = blk.reshape(O * I, P)
    k = m.kernel_size
    T = ly.taps(k, l["d"])
    rad, th = np.hypot(T[0], T[1]), np.arctan2(T[1], T[0])
    if l["kind"] != "diff":
        rings, sg = ly.ref_rings(l)
        mu = attr["radius"]
        j = [q for q, r in enumerate(rings) if abs(r - mu) < 1e-4]
        need(len(j) == 1, lambda: "%s: radius %r is not among the rings %r" % (what, mu, rings))
        g = np.exp(-0.5 * (rad - rings[j[0]]) ** 2 / sg[j[0]] ** 2)
        ang = np.ones((1, P)) if f == 0 else np.stack([np.cos(f * th), np.sin(f * th)]) * (rad > 1e-9)
        B = ang * g
        # float32 sampling leaves noise of the size of the largest tap
        co, *_ = np.linalg.lstsq(B.T, K.T, rcond=1e-7)
        res = np.abs(K.T - B.T @ co).max() / np.abs(K).max()
        need(res < 2e-3, lambda: "%s: its filter is not one of radius %.3g and frequency %d (residue %.3g)" % (what, mu, f, res))
        return
    od = int(attr["order"])
    # the symbol: response to the monomials of the stated order; lower orders are annihilated
    acc = np.abs(K) @ np.ones(P)
    for q in range(od):
        for a in range(q + 1):
            mon = T[0] ** a * T[1] ** (q - a)
            v = np.abs(K @ mon) / max(1e-12, acc.max() * max(1.0, np.abs(mon).max()))
            need(v.max() < 1e-4, lambda: "%s: of order %d, but does not annihilate x^%d y^%d (%.3g)" % (what, od, a, q - a, v.max()))
    sym = np.zeros((O * I, 64))
    u = np.arange(64) * 2 * PI / 64
    for a in range(od + 1):
        cf = K @ (T[0] ** a * T[1] ** (od - a)) / (math.factorial(a) * math.factorial(od - a))
        sym += cf[:, None] * (np.cos(u) ** a * np.sin(u) ** (od - a))[None]
    top = np.abs(sym).max()
    need(top * max(1.0, l["d"]) ** od > 1e-4 * acc.max(), lambda: "%s: of order %d, but annihilates all polynomials of that degree" % (what, od))
    B = np.ones((1, 64)) if f == 0 else np.stack([np.cos(f * u), np.sin(f * u)])
    co, *_ = np.linalg.lstsq(B.T, sym.T, rcond=None)
    res = np.abs(sym.T - B.T @ co).max() / top
    need(res < 5e-3, lambda: "%s: the operator does not have angular frequency %d (residue %.3g)" % (what, f, res))


# ---- He initialisation -------------------------------------------------------------------------------------------
def s_he():
    return sps().flatmap(lambda sp: st.fixed_dictionaries({"l": st.lists(layer(sp), min_size=1, max_size=3), "s": SEED, "order": SEED}))


def scales(A):
    """1 / sqrt(number of types of irreps feeding the output irrep * number of weights of the same input type at it)"""
    types, cnt = {}, {}
    for o, i in A.at:
        types.setdefault(o["pos"], set()).add(i["name"])
        cnt[o["pos"], i["name"]] = cnt.get((o["pos"], i["name"]), 0) + 1
    return np.array([1 / math.sqrt(len(types[o["pos"]]) * cnt[o["pos"], i["name"]]) for o, i in A.at])


def drawn(fn, n, want, seed, what):
    """fn(seed) -> one draw.  Exact when the draw is the scale times torch's normal stream; otherwise (another way of drawing the same
    distribution) the scales are estimated from many draws"""
    t = L()["torch"]
    v = fn(seed)
    t.manual_seed(seed)
    z = arr(t.randn(n))
    if np.allclose(v, want * z, rtol=1e-4, atol=1e-6):
        return
    M = 1500
    X = np.stack([fn(seed + 1 + k) for k in range(M)]) / want
    tol = 8 / math.sqrt(M)
    sd, mean = np.sqrt((X ** 2).mean(0)), X.mean(0)
    k = int(np.abs(sd - 1).argmax())
    need(abs(sd[k] - 1) < tol, lambda: "%s: weight %d of %d is drawn with standard deviation %.3f times the expected one" % (what, k, n, sd[k]))
    need(np.abs(mean).max() < tol, "%s: biased" % what)
    if n > 1:
        C = (X.T @ X) / M - np.diag((X ** 2).mean(0))
        need(np.abs(C).max() < 1.5 * tol, "%s: the weights are not drawn independently" % what)
    need(np.abs(X[0] - X[1]).max() > 1e-6, "%s: not random" % what)


def c_he(c):
    t = L()["torch"]
    init = L()["n"].init
    built = []
    for l in c["l"]:
        m = ly.build(l)
        if m is not None:
            built.append((l, m))
    if not built:
        return False
    ws = []
    for l, m in built:
        A = Atoms(l, m)
        ws.append(scales(A))
        if A.orth and l["kind"] != "diff":
            # what the scales are for: unit variance of every output irrep for white inputs
            pw = np.array([(A.K[k] ** 2).sum() / (o["hi"] - o["lo"]) for k, (o, i) in enumerate(A.at)])
            same(pw, np.ones(A.n), "%s layer: response of each basis filter to white noise" % l["kind"], 1e-3)
    seq = [(k, cache) for k in range(len(built)) for cache in (False, True, True)]
    g = rng(c["order"])
    for q in g.permutation(len(seq)):
        k, cache = seq[q]
        l, m = built[k]
        n = m.weights.numel()

        def fn(s):
            t.manual_seed(s)
            w = t.full((n,), 7.0)
            init.generalized_he_init(w, m.basisexpansion, cache=cache)
            return arr(w)
        drawn(fn, n, ws[k], c["s"] + int(q), "%s layer, He initialisation%s" % (l["kind"], ", cached" if cache else ""))
    # what a layer is built with
    l, m = built[-1]

    def fn2(s):
        t.manual_seed(s)
        return arr(ly.build(l, initialize=True, randomise=False).weights)
    drawn(fn2, m.weights.numel(), ws[-1], c["s"], "%s layer, initial weights" % l["kind"])
    return any(np.ptp(w) > 1e-3 for w in ws)


# ---- delta-orthogonal initialisation -----------------------------------------------------------------------------
def s_delta():
    def f(sp):
        # the same fields again on either side: wide layers
        return layer(sp).flatmap(lambda l: st.tuples(st.integers(1, 3), st.integers(1, 3), st.booleans(), st.booleans()).map(
            lambda q: dict(l, **{"in": (l["in"][:2] * q[0])[:4], "out": ((l["in"] if q[2] else l["out"])[:2] * q[1])[:4], "mo": None,
                                 "groups": 1}, **({} if l["kind"] == "diff" else {"sigma": None, "k": l["k"] if l["k"] % 2 else l["k"] - 1 if q[3] else l["k"]}))))
    return sps().flatmap(lambda sp: st.fixed_dictionaries({"l": f(sp), "s": SEED}))


def c_delta(c):
    l = c["l"]
    t = L()["torch"]
    m = ly.build(l)
    if m is None:
        return False
    if l["kind"] == "diff" and m.kernel_size % 2 == 0:
        return False  # no tap at the centre: averages of neighbours stand in for the value
    A = Atoms(l, m)
    n = A.n
    what = "%s layer, delta-orthogonal initialisation" % l["kind"]
    out = []
    for rep in range(2):
        t.manual_seed(c["s"] + rep)
        np.random.seed(c["s"] + rep)
        w = t.full((n,), float("nan"))
        L()["n"].init.deltaorthonormal_init(w, m.basisexpansion)
        w = arr(w)
        need(np.isfinite(w).all(), "%s: not finite" % what)
        out.append(w)
        K = np.einsum("k,koip->oip", w, A.K)
        k = m.kernel_size
        T = ly.taps(k, l["d"])
        rad = np.hypot(T[0], T[1])
        need(np.abs(K[:, :, rad > 1e-9]).max(initial=0.0) < 1e-5, lambda: "%s: the filter does not vanish away from its centre (%.3g)" % (
            what, np.abs(K[:, :, rad > 1e-9]).max()))
        if k % 2 == 0:
            continue
        ctr = K[:, :, rad < 1e-9][:, :, 0]
        admits = l["filt"] in (None, "even", "low") and (l["kind"] == "diff" or l["rings"] is None or l["k"] == 1 or 0.0 in l["rings"])
        for name in sorted({x["name"] for x in A.irr["o"]}):
            ro = np.concatenate([np.arange(x["lo"], x["hi"]) for x in A.irr["o"] if x["name"] == name])
            for other in sorted({x["name"] for x in A.irr["i"]}):
                ci = np.concatenate([np.arange(x["lo"], x["hi"]) for x in A.irr["i"] if x["name"] == other])
                M = ctr[np.ix_(ro, ci)]
                if name != other:
                    need(np.abs(M).max() < 1e-5, "%s: the centre maps %s to %s" % (what, other, name))
                elif admits and A.orth:
                    a, b = M.T @ M - np.eye(M.shape[1]), M @ M.T - np.eye(M.shape[0])
                    e = min(np.abs(a).max(), np.abs(b).max())
                    need(e < 1e-4, lambda: "%s: the centre, as a map between the %d x %d fields of type %s, does not preserve norms (%.3g)" % (
                        what, len(ro), len(ci), name, e))
    return any(sum(x["name"] == y["name"] for x in A.irr[s]) > 1 for s in "io" for y in A.irr[s])


FACETS = [Facet("describe", s_desc, c_desc, 1200, rule=RULE),
          Facet("he", s_he, c_he, 700, rule=RULE_H),
          Facet("delta", s_delta, c_delta, 1000, rule=RULE_D)]
