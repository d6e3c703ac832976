"""P19: ill-typed operations are rejected and equality means equal behaviour."""
import warnings
import numpy as np
from hypothesis import strategies as st
from .core import Facet, Violation, need
from .gen import (SEED, L, PI, spaces, space, gspec, ftype, rep, rep_size, reps, order, group, groups, irrep_ids, all_elements, test_elements,
                  el, rng, gt, weighted, field_lists, divisors, subgroup_ids, sgid, sub_spec)
from .ref import same, arr, plane, ref_rep, fiber, rejects
from . import nets
from .p12 import state_bytes

R_EQ = "non-trivial: the pair differs in some argument"
R_IN = "non-trivial: the module accepts its own input type and was offered a type acting differently"


# ---- what a type does ---------------------------------------------------------------------------------------------
def els(gs):
    return [el(gs, e) for e in test_elements(gs)]


def same_reps(gs, a, b, tol=1e-4):
    """the library representations a and b of one group act identically"""
    return a.size == b.size and all(np.abs(np.asarray(a(e)) - np.asarray(b(e))).max() <= tol for e in els(gs))


def same_plane(sp, sq, tol=1e-5):
    """both spaces have the same group and move the plane identically"""
    a, b = gspec(sp), gspec(sq)
    if a != b and not (a[0] == b[0] and a[0] in ("SO2", "O2")):
        return False
    return all(np.abs(plane(sp, e) - plane(sq, e)).max() <= tol for e in test_elements(gspec(sp)))


# ---- equality -----------------------------------------------------------------------------------------------------
def s_groups():
    g = groups(maxN=7, maxm=5)
    return st.tuples(g, g).flatmap(lambda t: st.sampled_from([list(t), [t[0], list(t[0])], [t[0], [t[1][0], max(1, t[0][1])]]]))


def consistent(a, b, what):
    """== and != are consistent and symmetric, and equal objects have equal hashes; -> equal?"""
    e = a == b
    need(e in (True, False), "%s: == gave %r" % (what, e))
    need((b == a) == e, "%s: == is not symmetric" % what)
    need((a != b) == (not e) and (b != a) == (not e), "%s: != disagrees with ==" % what)
    need(a == a and b == b and not a != a, "%s: not equal to itself" % what)
    if e:
        try:
            h = hash(a), hash(b)
        except TypeError:
            return e
        need(h[0] == h[1], "%s: equal objects with different hashes" % what)
    for other in (None, 0, "x", (a,)):
        need(not (a == other), "%s: equal to %r" % (what, other))
    return bool(e)


def c_groups(c):
    a, b = c
    A, B = group(a), group(b)
    e = consistent(A, B, "%s and %s" % (a, b))
    if a == b:
        need(e, "%s built twice compares different" % (a,))
    if e:
        need(a[0] == b[0] and (a[0] in ("SO2", "O2") or a[1] == b[1]), "the groups %s and %s compare equal" % (a, b))
        need(A.order() == B.order(), "order")
    return a != b


DELTA = [PI, -PI, 2 * PI, 1e-3, -1e-2, PI / 2, PI / 4, 0.3, PI + 1e-3, 1e-9, PI - 1e-9, 1e-4]


def respace(sp):
    """space specs close to sp"""
    opts = [st.just(dict(sp))]
    if "axis" in sp:
        opts += [st.sampled_from(DELTA).map(lambda d: dict(sp, axis=sp["axis"] + d))] * 3
    if sp.get("N", 0) > 0:
        opts.append(st.integers(2, 8).map(lambda n: dict(sp, N=n)))
        opts.append(st.just({"k": "rot", "N": sp["N"]} if sp["k"] == "fliprot" else {"k": "fliprot", "N": sp["N"], "axis": PI / 2}))
    if gspec(sp) == ["C", 2]:
        opts.append(st.just({"k": "flip", "axis": 0.0} if sp["k"] == "rot" else {"k": "rot", "N": 2}))
    if "m" in sp:
        opts.append(st.integers(1, 4).map(lambda m: dict(sp, m=m)))
    return st.one_of(*opts)


def s_spaces():
    return spaces(maxN=6, maxm=3).flatmap(lambda sp: st.tuples(st.just(sp), st.one_of(respace(sp), respace(sp), spaces(maxN=6, maxm=3))).map(list))


def c_spaces(c):
    a, b = c
    A, B = space(a), space(b)
    e = consistent(A, B, "%s and %s" % (a, b))
    if a == b:
        need(e, "%s built twice compares different" % (a,))
    if e:
        need(same_plane(a, b), "the spaces %s and %s act differently but compare equal" % (a, b))
        need(A.fibergroup == B.fibergroup, "equal spaces with different groups")
    return a != b


def rerep(gs, r):
    """variations of a representation under the same name"""
    return st.sampled_from([["same"], ["same"], ["sign"], ["perm"], ["scale"], ["eps"], ["nl"], ["rot"], ["irr"]])


def vary(G, r, how, name=None):
    """another representation with the same name"""
    g = L()["g"]
    Q = np.array(r.change_of_basis, dtype=float)
    irr = list(r.irreps)
    nl = set(r.supported_nonlinearities)
    n = r.size
    if how == "sign":
        Q = np.diag([-1.0] + [1.0] * (n - 1)) @ Q
    elif how == "perm":
        Q = np.roll(np.eye(n), 1, axis=0) @ Q
    elif how == "scale":
        Q = np.diag([2.0] + [1.0] * (n - 1)) @ Q
    elif how == "eps":
        Q = (np.eye(n) + 1e-2 * np.triu(np.ones((n, n)), 1)) @ Q
    elif how == "rot":
        q, _ = np.linalg.qr(np.arange(1.0, 1 + n * n).reshape(n, n) ** 2 + np.eye(n))
        Q = q @ Q
    elif how == "nl":
        nl = nl ^ {"norm"}
    elif how == "irr":
        size = {s: G.irreps[s].size for s in G.irreps}
        for i, s in enumerate(irr):
            alt = [q for q in sorted(size) if size[q] == size[s] and q != s]
            if alt:
                irr[i] = alt[0]
                break
    return g.Representation(G, r.name if name is None else name, irr, Q, nl)


def s_reps():
    def f(sp):
        gs = gspec(sp)
        return st.fixed_dictionaries({"sp": st.just(sp), "a": reps(gs, maxsize=8, depth=2), "b": reps(gs, maxsize=8, depth=2), "how": rerep(gs, None)})
    return spaces(maxN=6, maxm=3).flatmap(f)


def free_name(G, r):
    return r.name not in G.representations


def c_reps(c):
    g = L()["g"]
    gs = gspec(c["sp"])
    G = space(c["sp"]).fibergroup
    a, b = rep(gs, c["a"], G), rep(gs, c["b"], G)
    nt = False
    e = consistent(a, b, "representations %s and %s" % (c["a"], c["b"]))
    if e:
        need(same_reps(gs, a, b), "representations acting differently compare equal: %s, %s" % (c["a"], c["b"]))
    a2 = rep(gs, c["a"], group(gs))
    need(consistent(a, a2, "the same representation twice"), "%s built twice compares different" % (c["a"],))
    # the same name, built directly
    how = c["how"][0]
    base = vary(G, a, "same", "v_" + c["sp"]["k"])
    v = vary(G, base, how)
    e = consistent(base, v, "representations with one name (%s)" % how)
    if how == "same":
        need(e, "the same arguments give unequal representations")
    if e:
        need(same_reps(gs, base, v), "representations with one name acting differently compare equal (%s of %s)" % (how, c["a"]))
    nt = how != "same"
    # of another group
    if gs[0] == "C" and gs[1] > 1:
        H = group(["C", gs[1] + 1])
        need(not (G.trivial_representation == H.trivial_representation), "trivial representations of different groups compare equal")
        need(not (G.regular_representation == H.regular_representation), "regular representations of different groups compare equal")
    return nt


# ---- alternative field types ---------------------------------------------------------------------------------------
ALT = ["perm", "space", "triv", "vary", "drop", "dup", "group", "raw", "vary", "space"]


def alternatives(sp, ft, kind, seed):
    """(space or None, type) or None: a type derived from ft (over space sp if known) whose size is not larger than needed"""
    n, g = L()["n"], L()["g"]
    S = ft.gspace
    rs = list(ft.representations)
    G = S.fibergroup
    r = rng(seed)
    if kind == "perm":
        p = [int(i) for i in r.permutation(len(rs))]
        return n.FieldType(S, [rs[i] for i in p])
    if kind == "space":
        if sp is None:
            return None
        if "axis" in sp:
            d = [0.3, PI / 2, PI / 4, 1e-2][int(r.integers(4))]
            return n.FieldType(space(dict(sp, axis=sp["axis"] + d)), rs)
        if gspec(sp) == ["C", 2]:
            return n.FieldType(space({"k": "flip", "axis": 0.0}), rs)
        return None
    if kind == "triv":
        return n.FieldType(S, [S.trivial_repr] * ft.size)
    if kind == "vary":
        i = int(r.integers(len(rs)))
        how = ["sign", "perm", "scale", "eps", "rot", "irr"][int(r.integers(6))]
        v = vary(G, rs[i], how, None if free_name(G, rs[i]) else "v_" + how)
        return n.FieldType(S, rs[:i] + [v] + rs[i + 1:])
    if kind == "drop":
        return n.FieldType(S, rs[:-1]) if len(rs) > 1 else None
    if kind == "dup":
        return n.FieldType(S, rs + [rs[int(r.integers(len(rs)))]])
    if kind == "group":
        Q = space({"k": "rot", "N": 7})
        return n.FieldType(Q, [Q.trivial_repr] * ft.size)
    return "raw"


def acts_alike(a, b):
    """types a and b over one space act identically on the fibers, field by field"""
    if len(a) != len(b):
        return False
    if a.fibergroup != b.fibergroup:
        return False
    es = [e for e in a.fibergroup.testing_elements()] if callable(getattr(a.fibergroup, "testing_elements", None)) else list(a.testing_elements)
    for p, q in zip(a, b):
        if p.size != q.size or any(np.abs(np.asarray(p(e)) - np.asarray(q(e))).max() > 1e-4 for e in es):
            return False
    return True


def offer(m, ft, alt, x, what, call=None):
    """m must reject x typed by alt; its state does not change"""
    t = L()["torch"]
    call = call or (lambda z: m(z))
    before = state_bytes(m)
    with t.no_grad():
        if isinstance(alt, str):
            z = t.tensor(x)
        else:
            c = alt.size
            y = x[:, :c] if c <= x.shape[1] else np.concatenate([x, x, x], 1)[:, :c]
            z = gt(y, alt)
        rejects(lambda: call(z), "%s for %s: an input of type %s" % (what, ft, alt))
    after = state_bytes(m)
    need(before.keys() == after.keys() and all(np.array_equal(before[k], after[k], equal_nan=True) for k in before), "%s: a rejected input changed its state" % what)


def s_input():
    return nets.specs(sym=False, maxlen=3, minlen=1).flatmap(lambda s: st.fixed_dictionaries(
        {"net": st.just(s), "kind": st.sampled_from(ALT), "seed": SEED, "eval": st.booleans()}))


def c_input(c):
    t = L()["torch"]
    spec = c["net"]
    net = nets.build(spec, sym=False, inplace=False)
    if net is None:
        return False
    if c["eval"]:
        net.seq.eval()
    x = nets.image(spec, net, 2)
    z = gt(x, net.first.ft)
    nt = False
    todo = [(net.seq, z)]
    for m in net.mods:
        todo.append((m, z))
        with t.no_grad():
            z = m(z)
    S0 = net.first.ft.gspace
    for i, (m, z) in enumerate(todo):
        ft = m.in_type
        need(z.type == ft, "input type of the next module")
        alt = alternatives(spec["sp"] if ft.gspace is S0 else None, ft, c["kind"], c["seed"] + i)
        if alt is None:
            continue
        if not isinstance(alt, str) and c["kind"] not in ("space", "group") and acts_alike(ft, alt):
            continue
        offer(m, ft, alt, z.tensor.numpy(), type(m).__name__)
        nt = True
    return nt


# ---- operations on tensors and types -------------------------------------------------------------------------------
def s_tensor():
    return spaces(maxN=6, maxm=3).flatmap(lambda sp: st.fixed_dictionaries(
        {"sp": st.just(sp), "rs": field_lists(gspec(sp), 3, 5, 9, depth=1), "kind": st.sampled_from(ALT), "seed": SEED,
         "shape": st.tuples(st.integers(1, 2), st.integers(1, 3), st.integers(1, 3)).map(list)}))


def c_tensor(c):
    n, t = L()["n"], L()["torch"]
    sp = c["sp"]
    ft = ftype(sp, c["rs"])
    b, h, w = c["shape"]
    x = rng(c["seed"]).standard_normal((b, ft.size, h, w)).astype(np.float32)
    A = gt(x, ft)
    GT, FT = n.GeometricTensor, n.FieldType
    # channel counts
    for d in (-1, 1, 2):
        if ft.size + d > 0:
            rejects(lambda: GT(t.zeros(b, ft.size + d, h, w), ft), "a tensor of %d channels for a type of size %d" % (ft.size + d, ft.size))
    rejects(lambda: GT(x, ft), "a numpy array as a tensor")
    rejects(lambda: GT(t.zeros(ft.size), ft), "a tensor without batch dimension")
    rejects(lambda: FT(ft.gspace, []), "a field type without fields")
    rejects(lambda: A * t.ones(2), "multiplication with a vector")
    rejects(lambda: A * A, "multiplication of two typed tensors")
    rejects(lambda: A * t.ones(b + 1, ft.size, h, w), "multiplication with a tensor")
    rejects(lambda: A.__imul__(t.ones(1, 2)), "in-place multiplication with a vector")
    same(A, x, "tensor after rejected operations", 0)
    # representations of another group
    gs = gspec(sp)
    other = group(["C", gs[1] + 1] if gs[0] == "C" else ["D", gs[1] + 1] if gs[0] == "D" else ["D", 3])
    rejects(lambda: FT(ft.gspace, list(ft.representations) + [other.trivial_representation]), "a field type with a representation of another group")
    alt = alternatives(sp, ft, c["kind"], c["seed"])
    if alt is None:
        return False
    if isinstance(alt, str):
        for f in ("__add__", "__sub__", "__iadd__", "__isub__"):
            rejects(lambda: getattr(A, f)(t.tensor(x)), "%s of a typed tensor and a plain one" % f)
        same(A, x, "tensor after rejected operations", 0)
        return True
    if c["kind"] not in ("space", "group") and acts_alike(ft, alt):
        return False
    need(not (ft == alt), "types acting differently compare equal: %s and %s (%s)" % (ft, alt, c["kind"]))
    need(ft != alt, "!= disagrees with ==")
    y = np.concatenate([x, x, x], 1)[:, :alt.size]
    B = gt(y, alt)
    for f in ("__add__", "__sub__", "__iadd__", "__isub__"):
        rejects(lambda: getattr(A, f)(B), "%s of tensors of types %s and %s (%s)" % (f, ft, alt, c["kind"]))
        rejects(lambda: getattr(B, f)(A), "%s of tensors of types %s and %s (%s)" % (f, alt, ft, c["kind"]))
    same(A, x, "tensor after rejected operations", 0)
    same(B, y, "tensor after rejected operations", 0)
    if c["kind"] in ("space", "group"):
        rejects(lambda: n.tensor_directsum([A, B]), "direct sum of tensors over different spaces")
        rejects(lambda: n.tensor_directsum([A, A, B]), "direct sum of tensors over different spaces")
        rejects(lambda: ft + alt, "sum of types over different spaces")
        rejects(lambda: alt + ft, "sum of types over different spaces")
    for q in ((b + 1, h, w), (b, h + 1, w), (b, h, w + 1)):
        C = gt(np.zeros((q[0], ft.size) + q[1:]), ft)
        rejects(lambda: n.tensor_directsum([A, C]), "direct sum of tensors of different shapes")
    same(A, x, "tensor after rejected operations", 0)
    return True


# ---- equality of field types ---------------------------------------------------------------------------------------
def s_types():
    return spaces(maxN=6, maxm=3).flatmap(lambda sp: respace(sp).flatmap(lambda sq: field_lists(gspec(sp), 3, 5, 9, depth=1).flatmap(
        lambda rs: st.fixed_dictionaries({"sp": st.just(sp), "sq": st.just(sq), "rs": st.just(rs), "qs": st.one_of(
            st.just(rs), st.permutations(rs).map(list), field_lists(gspec(sp), 3, 5, 9, depth=1), st.just(rs[:-1] or rs))}))))


def c_types(c):
    sp, sq = c["sp"], c["sq"]
    a = ftype(sp, c["rs"])
    if gspec(sp) != gspec(sq):
        return False
    b = ftype(sq, c["qs"])
    e = consistent(a, b, "types %s and %s" % (c["rs"], c["qs"]))
    if sp == sq and c["rs"] == c["qs"]:
        need(e, "the same arguments give unequal types")
    if e:
        need(same_plane(sp, sq), "types over spaces acting differently compare equal")
        need(len(a) == len(b) and all(same_reps(gspec(sp), p, q) for p, q in zip(a, b)), "types with different fields compare equal")
    return sp != sq or c["rs"] != c["qs"]


# ---- constructors --------------------------------------------------------------------------------------------------
def probe(m, ft, sp, seed, what):
    """m was accepted: it has to commute with the fibers' transformations (of grid elements, acting on constant images)"""
    t = L()["torch"]
    gs = gspec(sp)
    g = rng(seed)
    m.eval()
    B = 6
    for x in (g.standard_normal((B, ft.size, 1, 1)) * np.ones((1, 1, 5, 5)),):
        x = x.astype(np.float32)
        with t.no_grad():
            y = arr(m(gt(x, ft)))
            for e in els(gs):
                gx = fiber(ft.representations, e, x.astype(np.float64))
                z = arr(m(gt(gx, ft)))
                w = fiber(m.out_type.representations, e, y)
                s = max(1.0, np.abs(w).max(), np.abs(gx).max())
                ok = np.isfinite(z) & np.isfinite(w)
                if (np.abs(z - w)[ok] > 1e-3 * s).any():
                    raise Violation("%s accepted the representations %s but is not equivariant under %r" % (what, [r.name for r in ft], e), "accepts:" + what)


CLS = ["ReLU", "ELU", "PointwiseNonLinearity", "PointwiseDropout", "InnerBatchNorm", "GroupPooling", "NormNonLinearity", "NormPool", "NormBatchNorm",
       "InducedNormNonLinearity", "InducedNormPool", "InducedNormBatchNorm", "ConcatenatedNonLinearity", "VectorFieldNonLinearity",
       "GatedNonLinearity1", "GatedNonLinearity2", "GNormBatchNorm", "FieldDropout", "MaxPool", "MaxPoolAA", "AdaptMax", "AdaptAvg", "NormMaxPool", "AvgPool"]


def s_unsup():
    return spaces(maxN=6, maxm=2).flatmap(lambda sp: st.fixed_dictionaries(
        {"sp": st.just(sp), "rs": field_lists(gspec(sp), 3, 8, 12, depth=2), "cls": st.sampled_from(CLS), "seed": SEED}))


def construct(name, ft):
    n = L()["n"]
    S = ft.gspace
    if name in ("MaxPool", "NormMaxPool", "AvgPool", "MaxPoolAA"):
        cls = {"MaxPool": n.PointwiseMaxPool, "NormMaxPool": n.NormMaxPool, "AvgPool": n.PointwiseAvgPool, "MaxPoolAA": n.PointwiseMaxPoolAntialiased}[name]
        return cls(ft, kernel_size=2, stride=1), ft
    if name in ("AdaptMax", "AdaptAvg"):
        return (n.PointwiseAdaptiveMaxPool if name == "AdaptMax" else n.PointwiseAdaptiveAvgPool)(ft, 2), ft
    if name == "GatedNonLinearity1":
        full = n.FieldType(S, [S.trivial_repr] * len(ft) + list(ft.representations))
        return n.GatedNonLinearity1(full), full
    if name == "GatedNonLinearity2":
        gates = n.FieldType(S, [S.trivial_repr] * len(ft))
        m = n.GatedNonLinearity2((gates, ft))
        q = np.asarray(rng(3).standard_normal((6, len(ft), 5, 5)), np.float32)
        h = n.GatedNonLinearity2.forward

        class Fixed(L()["torch"].nn.Module):
            in_type, out_type = ft, m.out_type

            def forward(self, z):
                return h(m, gt(q, gates), z)
        return Fixed(), ft
    return getattr(n, name)(ft), ft


def c_unsup(c):
    n, t = L()["n"], L()["torch"]
    ft = ftype(c["sp"], c["rs"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m, ft = construct(c["cls"], ft)
    except Exception:
        return True  # rejected
    if isinstance(m, t.nn.Module):
        nets.randomise(m, c["seed"], 0.3)
    if c["cls"] in ("MaxPool", "NormMaxPool", "AdaptMax"):
        # a spatial image is needed: the pooled positions have to agree between transformed copies
        return pooled(m, ft, c)
    if "BatchNorm" in c["cls"]:
        m.train()
        with t.no_grad():
            g = rng(c["seed"])
            # statistics of an orbit are invariant
            if order(gspec(c["sp"])) > 0:
                x = g.standard_normal((4, ft.size, 2, 2))
                X = np.concatenate([fiber(ft.representations, e, x) for e in els(gspec(c["sp"]))])
                m(gt(X, ft))
        m.eval()
        if order(gspec(c["sp"])) < 0:
            return False
    probe(m, ft, c["sp"], c["seed"], c["cls"])
    return True


def pooled(m, ft, c):
    t = L()["torch"]
    gs = gspec(c["sp"])
    x = rng(c["seed"]).standard_normal((3, ft.size, 3, 3)).astype(np.float32)
    with t.no_grad():
        y = arr(m(gt(x, ft)))
        for e in els(gs):
            gx = fiber(ft.representations, e, x.astype(np.float64))
            z, w = arr(m(gt(gx, ft))), fiber(m.out_type.representations, e, y)
            bad = np.abs(z - w) > 1e-3 * max(1.0, np.abs(w).max())
            # isolated ties are no evidence: require most positions to disagree somewhere
            if bad.mean() > 0.05:
                raise Violation("%s accepted the representations %s but is not equivariant under %r" % (c["cls"], [r.name for r in ft], e), "accepts:" + c["cls"])
    return True


def s_ctor():
    def f(sp):
        gs = gspec(sp)
        return st.fixed_dictionaries({"sp": st.just(sp), "a": field_lists(gs, 3, 4, 7, depth=1), "b": field_lists(gs, 3, 4, 7, depth=1),
                                      "sq": respace(sp), "alt": st.sampled_from(ALT), "seed": SEED, "groups": st.sampled_from([2, 2, 3]),
                                      "ints": st.lists(st.integers(-1, 5), min_size=1, max_size=5), "what": st.sampled_from(sorted(CTOR))})
    return spaces(maxN=6, maxm=2).flatmap(f)


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def k_conv(c, sp, a, b):
    """input and output over different spaces"""
    n = L()["n"]
    b2 = alternatives(sp, b, "space", c["seed"]) or alternatives(sp, b, "group", c["seed"])
    for cls, kw in ((n.R2Conv, dict(kernel_size=3)), (n.R2ConvTransposed, dict(kernel_size=3)), (n.R2Diffop, dict(kernel_size=3, accuracy=2))):
        rejects(lambda: quiet(lambda: cls(a, b2, initialize=False, **kw)), "%s between types over different spaces" % cls.__name__)
        rejects(lambda: quiet(lambda: cls(b2, a, initialize=False, **kw)), "%s between types over different spaces" % cls.__name__)
    return True


def k_groups(c, sp, a, b):
    """grouped convolutions need repeated fields"""
    n = L()["n"]
    g = c["groups"]
    ra, rb = list(a.representations), list(b.representations)

    def periodic(rs):
        return len(rs) % g == 0 and all(acts_alike(n.FieldType(a.gspace, [rs[i]]), n.FieldType(a.gspace, [rs[i % (len(rs) // g)]])) for i in range(len(rs)))
    good_a, good_b = n.FieldType(a.gspace, ra * g), n.FieldType(a.gspace, rb * g)
    odd_a, odd_b = n.FieldType(a.gspace, ra * g + rb[:1]), n.FieldType(a.gspace, ra + rb)
    done = False
    for cls, kw in ((n.R2Conv, dict(kernel_size=1)), (n.R2ConvTransposed, dict(kernel_size=1)), (n.R2Diffop, dict(kernel_size=3, accuracy=2))):
        for x, y in ((odd_a, good_b), (good_a, odd_a), (odd_b, good_b), (good_a, odd_b)):
            if periodic(list(x)) and periodic(list(y)):
                continue
            rejects(lambda: quiet(lambda: cls(x, y, groups=g, initialize=False, **kw)), "%s with %d groups between %s and %s" % (cls.__name__, g, x, y))
            done = True
    return done


def k_seq(c, sp, a, b):
    n = L()["n"]
    alt = alternatives(sp, a, c["alt"], c["seed"])
    if alt is None or isinstance(alt, str) or (c["alt"] not in ("space", "group") and acts_alike(a, alt)):
        return False
    I, J = n.IdentityModule(a), n.IdentityModule(alt)
    rejects(lambda: n.SequentialModule(I, J), "a sequence of modules of different types")
    rejects(lambda: n.SequentialModule(I, n.IdentityModule(a), J), "a sequence of modules of different types")
    s = n.SequentialModule(I)
    rejects(lambda: s.append(J), "appending a module of another type") if hasattr(s, "append") and not isinstance(s, L()["torch"].nn.Sequential) else None
    rejects(lambda: s.add_module("1", J), "adding a module of another type")
    x = rng(c["seed"]).standard_normal((1, a.size, 2, 2)).astype(np.float32)
    same(s(gt(x, a)), x, "a sequence after a rejected addition", 0)
    return True


def k_merge(c, sp, a, b):
    n = L()["n"]
    alt = alternatives(sp, b, "space", c["seed"]) or alternatives(sp, b, "group", c["seed"])
    rejects(lambda: n.MergeModule([(n.IdentityModule(a), "x"), (n.IdentityModule(alt), "y")]), "merging modules over different spaces")
    m = n.MergeModule([(n.IdentityModule(a), "x"), (n.IdentityModule(b), "y")])
    x, y = np.zeros((1, a.size, 2, 2)), np.zeros((1, b.size, 2, 2))
    if not (len(a) == len(b) and acts_alike(a, b)):
        rejects(lambda: m({"x": gt(y, b), "y": gt(x, a)}), "inputs of a merge with swapped labels")
    rejects(lambda: m({"x": gt(x, a)}), "a merge with a missing input")
    rejects(lambda: m({"x": gt(x, a), "y": gt(np.zeros((1, b.size, 3, 2)), b)}), "a merge of images of different sizes")
    return True


def k_multi(c, sp, a, b):
    n = L()["n"]
    labels = [["p", "q"][(c["seed"] >> i) & 1] for i in range(len(a))]
    types = a.group_by_labels(labels)
    mods = [(n.IdentityModule(types[l]), l) for l in sorted(types)]
    n.MultipleModule(a, list(labels), list(mods))
    rejects(lambda: n.MultipleModule(a, list(labels) + ["p"], list(mods)), "too many labels")
    rejects(lambda: n.BranchingModule(a, list(labels) + ["p"]), "too many labels")
    if len(labels) > 1:
        rejects(lambda: n.MultipleModule(a, labels[:-1], list(mods)), "too few labels")
        rejects(lambda: n.BranchingModule(a, labels[:-1]), "too few labels")
    rejects(lambda: n.MultipleModule(a, list(labels), mods[:-1] + [(mods[-1][0], "other")]), "a module for an unknown label")
    l = sorted(types)[0]
    alt = alternatives(sp, types[l], c["alt"], c["seed"])
    if alt is None or isinstance(alt, str) or (c["alt"] not in ("space", "group") and acts_alike(types[l], alt)):
        return len(types) > 1
    rejects(lambda: n.MultipleModule(a, list(labels), [(n.IdentityModule(alt), l)] + mods[1:]), "a branch of another type")
    return True


def k_gates(c, sp, a, b):
    n = L()["n"]
    S = a.gspace
    T = S.trivial_repr
    k = len(a)
    nontriv = [r for r in list(a) + list(b) if not (r.size == 1 and all(abs(float(np.asarray(r(e)).ravel()[0]) - 1) < 1e-6 for e in els(gspec(sp))))]
    FT = n.FieldType
    for m_ in (k - 1, k + 1, k + 2):
        if m_ > 0:
            rejects(lambda: n.GatedNonLinearity2((FT(S, [T] * m_), a)), "%d gates for %d fields" % (m_, k))
        t = FT(S, [T] * max(m_, 0) + list(a)) if m_ >= 0 else None
        if t is not None:
            rejects(lambda: n.GatedNonLinearity1(t, gates=["gate"] * max(m_, 0) + ["gated"] * k), "%d gates for %d fields" % (m_, k))
    rejects(lambda: n.GatedNonLinearity1(FT(S, [T] * k + list(a)), gates=["gate"] * k + ["gated"] * (k + 1)), "too many kinds")
    rejects(lambda: n.GatedNonLinearity1(FT(S, [T] * k + list(a)), gates=["gate"] * k + ["other"] * k), "an unknown kind")
    rejects(lambda: n.GatedNonLinearity1(FT(S, [T] * k + list(a)), gates=["gate"] * k + ["gated"] * (k - 1)), "too few kinds")
    if nontriv:
        q = nontriv[c["seed"] % len(nontriv)]
        rejects(lambda: n.GatedNonLinearity2((FT(S, [T] * (k - 1) + [q]), a)), "a gate that is not invariant")
        rejects(lambda: n.GatedNonLinearity1(FT(S, [q] + [T] * (k - 1) + list(a)), gates=["gate"] * k + ["gated"] * k), "a gate that is not invariant")
    alt = alternatives(sp, a, "space", c["seed"]) or alternatives(sp, a, "group", c["seed"])
    rejects(lambda: n.GatedNonLinearity2((FT(S, [T] * len(alt)), alt)), "gates and fields over different spaces")
    return bool(nontriv)


def k_perm(c, sp, a, b):
    n = L()["n"]
    p = [i for i in c["ints"]]
    if sorted(p) == list(range(len(a))):
        return False
    rejects(lambda: n.ReshuffleModule(a, p), "%s as a permutation of %d fields" % (p, len(a)))
    return True


def k_restrict(c, sp, a, b):
    n = L()["n"]
    gs = gspec(sp)
    bad = []
    if gs[0] == "C":
        bad = [q for q in (gs[1] + 1, 2 * gs[1], gs[1] * 3) if gs[1] % q] + [q for q in range(2, gs[1]) if gs[1] % q]
    elif gs[0] == "D":
        bad = [(None, q) for q in (gs[1] + 1, 2 * gs[1])] + [(0, q) for q in range(2, gs[1]) if gs[1] % q] + [(0, 2 * gs[1])]
    if not bad:
        return False
    q = bad[c["seed"] % len(bad)]
    rejects(lambda: a.restrict(q), "restriction of a type over %s to %r" % (gs, q))
    rejects(lambda: n.RestrictionModule(a, q), "restriction module of %s to %r" % (gs, q))
    rejects(lambda: a.gspace.restrict(q), "restriction of the space of %s to %r" % (gs, q))
    rejects(lambda: a.representations[0].restrict(q), "restriction of a representation of %s to %r" % (gs, q))
    return True


def k_rep(c, sp, a, b):
    g = L()["g"]
    G = a.fibergroup
    r = a.representations[0]
    Q = np.array(r.change_of_basis)
    nl = set(r.supported_nonlinearities)
    e = els(gspec(sp))[-1]
    # at the latest when it is evaluated
    R = lambda irr, q, **kw: g.Representation(G, "k_rep_test", irr, q, nl, **kw)(e)
    rejects(lambda: R(list(r.irreps), np.eye(r.size + 1)), "a change of basis larger than the representation")
    if r.size > 1:
        rejects(lambda: R(list(r.irreps), np.eye(r.size - 1)), "a change of basis smaller than the representation")
        sing = np.ones((r.size, r.size))
        rejects(lambda: R(list(r.irreps), sing), "a singular change of basis", kinds=(Exception,))
    rejects(lambda: R(list(r.irreps), Q, change_of_basis_inv=2.0 * np.linalg.inv(Q)), "a wrong inverse change of basis")
    rejects(lambda: R(list(r.irreps) + ["no such irrep"], Q), "an unknown irrep")
    rejects(lambda: R(list(r.irreps) + [list(G.irreps)[0]], Q), "more irreps than the change of basis has room for")
    o = group(["C", 9]).irrep(1)
    rejects(lambda: g.directsum([r, o]), "direct sum of representations of different groups")
    rejects(lambda: g.directsum([o, r]), "direct sum of representations of different groups")
    return True


CTOR = {"conv": k_conv, "groups": k_groups, "seq": k_seq, "merge": k_merge, "multi": k_multi, "gates": k_gates, "perm": k_perm,
        "restrict": k_restrict, "rep": k_rep}


def c_ctor(c):
    a, b = ftype(c["sp"], c["a"]), ftype(c["sp"], c["b"])
    b = L()["n"].FieldType(a.gspace, b.representations)
    return CTOR[c["what"]](c, c["sp"], a, b)


FACETS = [Facet("groups", s_groups, c_groups, 600, rule=R_EQ), Facet("spaces", s_spaces, c_spaces, 2500, rule=R_EQ),
          Facet("representations", s_reps, c_reps, 1500, rule=R_EQ), Facet("types", s_types, c_types, 1500, rule=R_EQ),
          Facet("input", s_input, c_input, 1500, rule=R_IN), Facet("tensor", s_tensor, c_tensor, 1200, rule="non-trivial: operands acting differently were offered"),
          Facet("unsupported", s_unsup, c_unsup, 2500, rule="non-trivial: the constructor rejected the type or the module was tested for equivariance"),
          Facet("constructor", s_ctor, c_ctor, 1200, rule="non-trivial: at least one ill-typed argument was offered")]
