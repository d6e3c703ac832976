"""Generators (Hypothesis strategies of JSON specs) and builders (specs -> library objects)."""
from . import boot  # noqa
import hashlib, json, math, zlib
import numpy as np
from hypothesis import strategies as st

PI = math.pi
_lib = {}


def L():
    """library modules, imported lazily so that strategies are cheap"""
    if not _lib:
        import e2cnn.group as g, e2cnn.gspaces as s, e2cnn.nn as n, e2cnn.kernels as k, e2cnn.diffops as d, torch
        torch.set_num_threads(1)
        _lib.update(g=g, s=s, n=n, k=k, d=d, torch=torch)
    return _lib


def rng(seed):
    return np.random.default_rng(int(seed))


SEED = st.integers(0, 2 ** 20)

# ---- groups -----------------------------------------------------------------------------------------------------


def groups(maxN=12, continuous=True, finite=True, maxm=6):
    opts = []
    if finite:
        opts += [st.tuples(st.just("C"), st.integers(1, maxN)), st.tuples(st.just("D"), st.integers(1, maxN))]
    if continuous:
        opts += [st.tuples(st.just("SO2"), st.integers(0, maxm)), st.tuples(st.just("O2"), st.integers(0, maxm))]
    return st.one_of(*opts).map(list)


def group(gs):
    g = L()["g"]
    return {"C": lambda: g.cyclic_group(gs[1]), "D": lambda: g.dihedral_group(gs[1]),
            "SO2": lambda: g.so2_group(gs[1]), "O2": lambda: g.o2_group(gs[1])}[gs[0]]()


def order(gs):
    return {"C": gs[1], "D": 2 * gs[1], "SO2": -1, "O2": -1}[gs[0]]


NICE = [0.0, PI / 2, PI, -PI / 2, PI / 3, 2 * PI, -2 * PI, 2 * PI / 7, 5.0, 1e-3]


def angles():
    return st.one_of(st.sampled_from(NICE), st.floats(-20, 20, allow_nan=False).map(lambda v: round(v, 6)),
                     st.tuples(st.integers(-24, 24), st.integers(1, 16)).map(lambda t: 2 * PI * t[0] / t[1]))


def elements(gs):
    k = gs[0]
    if k == "C":
        return st.integers(0, gs[1] - 1)
    if k == "D":
        return st.tuples(st.integers(0, 1), st.integers(0, gs[1] - 1)).map(list)
    if k == "SO2":
        return angles()
    return st.tuples(st.integers(0, 1), angles()).map(list)


def all_elements(gs):
    if gs[0] == "C":
        return list(range(gs[1]))
    if gs[0] == "D":
        return [[f, k] for f in (0, 1) for k in range(gs[1])]
    return None


def test_elements(gs, extra=()):
    a = all_elements(gs)
    if a is not None:
        return a
    base = [0.0, PI / 2, 2 * PI / 5, 1.0, -2.3, 7.5, PI]
    if gs[0] == "SO2":
        return base + list(extra)
    return [[f, t] for f in (0, 1) for t in base] + list(extra)


def el(gs, e):
    return tuple(e) if gs[0] in ("D", "O2") else e


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def subgroup_ids(gs, maxord=12):
    k, n = gs
    if k == "C":
        return st.sampled_from(divisors(n))
    if k == "D":
        return st.sampled_from(divisors(n)).flatmap(lambda o: st.tuples(
            st.one_of(st.none(), st.integers(0, n // o - 1)), st.just(o)).map(list))
    if k == "SO2":
        return st.integers(1, maxord)
    fin = st.integers(1, maxord).flatmap(lambda o: st.tuples(
        st.one_of(st.none(), st.floats(0, 1, exclude_max=True).map(lambda v, o=o: round(v, 4) * 2 * PI / o * 0.999),
                  st.sampled_from([0.0, 0.25, 0.5]).map(lambda v, o=o: v * 2 * PI / o)), st.just(o)).map(list))
    cont = st.one_of(st.none(), st.floats(0, 6.2).map(lambda v: round(v, 4)), st.just(0.0)).map(lambda a: [a, -1])
    return st.one_of(fin, cont)


def sgid(s):
    return tuple(s) if isinstance(s, list) else s


def sub_spec(gs, s):
    """group spec of the subgroup with identifier s"""
    k, n = gs
    if k in ("C", "SO2"):
        return ["C", s]
    a, o = s
    if o == -1:
        return ["SO2", n] if a is None else ["O2", n]
    if a is None:
        return ["C", o]
    return ["C", 2] if o == 1 else ["D", o]


def sub_embed(gs, s, h):
    """reference embedding of a subgroup element (spec) into the parent"""
    k, n = gs
    if k == "C":
        return h * (n // s)
    if k == "SO2":
        return h * 2 * PI / s
    a, o = s
    if k == "D":
        ratio = n // o
        if a is None:
            return [0, h * ratio]
        if o == 1:
            return [h, (a * h) % n]
        return [h[0], (h[1] * ratio + h[0] * a) % n]
    if o == -1:
        return [0, h] if a is None else [h[0], h[1] + h[0] * a]
    if a is None:
        return [0, h * 2 * PI / o]
    if o == 1:
        return [h, a * h]
    return [h[0], h[1] * 2 * PI / o + h[0] * a]


# ---- representations --------------------------------------------------------------------------------------------
def irrep_ids(gs):
    k, n = gs
    if k == "C":
        return [[q] for q in range(n // 2 + 1)]
    if k == "D":
        out = [[0, 0]] + [[1, q] for q in range(n // 2 + 1)]
        if n % 2 == 0:
            out.append([0, n // 2])
        return out
    if k == "SO2":
        return [[q] for q in range(n + 1)]
    return [[0, 0]] + [[1, q] for q in range(n + 1)]


def irreps(gs):
    return st.sampled_from(irrep_ids(gs)).map(lambda a: ["irr"] + a)


def leaf_reps(gs, perm=False):
    opts = [] if perm else [irreps(gs), irreps(gs)]
    if order(gs) > 0:
        opts += [st.just(["reg"]), subgroup_ids(gs).map(lambda s: ["quo", s])]
        if not perm:
            opts += [subgroup_ids(gs).flatmap(lambda s: irreps(sub_spec(gs, s)).map(lambda i: ["ind", s, i[1:]]))]
    if perm:
        opts += [st.just(["triv"])]
    return st.one_of(*opts)


COB = ("perm", "orth", "sign", "gen")


def weighted(*pairs):
    """(weight, strategy) pairs; earlier alternatives are simpler and shrink towards the first"""
    table = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]
    return st.integers(0, len(table) - 1).flatmap(lambda k: pairs[table[k]][1])


def reps(gs, maxsize=12, depth=2, cob=COB, restricted=True):
    """arbitrary representation expressions of bounded size"""
    leaf = leaf_reps(gs)
    if restricted and gs[0] in ("C", "D"):
        leaf = weighted((4, leaf), (1, restricted_reps(gs)))

    def ext(s):
        p = [(3, st.lists(s, min_size=1, max_size=3).map(lambda rs: ["sum", rs]))]
        if cob:
            p.append((3, st.tuples(st.sampled_from(cob), SEED, s).map(lambda t: ["cob"] + list(t))))
        return weighted(*p)
    s = leaf
    for _ in range(depth):
        s = weighted((1, leaf), (2, ext(s)))
    return s.filter(lambda r: rep_size(gs, r) <= maxsize)


def restricted_reps(gs):
    k, n = gs
    opts = []
    if k == "C":
        opts.append(st.integers(1, 3).map(lambda m: (["C", n * m], n)))
        opts.append(st.integers(0, 6).map(lambda m: (["SO2", m], n)))
        opts.append(st.integers(1, 2).map(lambda m: (["D", n * m], [None, n])))
        if n == 2:
            opts.append(st.integers(1, 4).flatmap(lambda N: st.integers(0, N - 1).map(lambda a: (["D", N], [a, 1]))))
    else:
        if n > 1:
            opts.append(st.integers(1, 3).flatmap(lambda m: st.integers(0, m - 1).map(lambda a: (["D", n * m], [a, n]))))
            opts.append(st.integers(0, 6).flatmap(lambda m: st.sampled_from([0.0, 0.3, 0.5]).map(
                lambda a: (["O2", m], [a * 2 * PI / n, n]))))
        else:
            opts.append(st.just((["D", 1], [None, 1])))  # replaced below: D1 has no parent with matching id
    s = st.one_of(*opts).flatmap(lambda t: leaf_reps(t[0]).map(lambda r: ["res", t[0], t[1], r]))
    if k == "D" and n == 1:
        return leaf_reps(gs)
    return s


def rep_size(gs, r):
    k = r[0]
    if k == "triv":
        return 1
    if k == "irr":
        return irrep_size(gs, r[1:])
    if k == "reg":
        return order(gs)
    if k == "quo":
        return order(gs) // order(sub_spec(gs, r[1]))
    if k == "ind":
        if gs[0] == "O2":
            return 2 * irrep_size(sub_spec(gs, r[1]), r[2])
        return order(gs) // order(sub_spec(gs, r[1])) * irrep_size(sub_spec(gs, r[1]), r[2])
    if k == "sum":
        return sum(rep_size(gs, x) for x in r[1])
    if k == "cob":
        return rep_size(gs, r[3])
    if k == "res":
        return rep_size(r[1], r[3])
    if k == "nam":
        return rep_size(gs, r[2])
    raise KeyError(k)


def irrep_size(gs, a):
    if gs[0] in ("C", "SO2"):
        q = a[0]
        return 1 if q == 0 or (gs[0] == "C" and 2 * q == gs[1]) else 2
    j, q = a
    return 1 if q == 0 or (gs[0] == "D" and 2 * q == gs[1]) else 2


def basis_matrix(kind, seed, n):
    g = rng(seed)
    if kind == "perm":
        return np.eye(n)[g.permutation(n)]
    if kind == "sign":
        return np.diag(g.choice([-1.0, 1.0], size=n))[g.permutation(n)]
    q, _ = np.linalg.qr(g.standard_normal((n, n)))
    if kind == "orth":
        return q
    return q @ np.diag(g.uniform(0.5, 2.0, size=n)) @ np.linalg.qr(g.standard_normal((n, n)))[0]


def tag(x):
    return hashlib.sha1(json.dumps(x).encode()).hexdigest()[:8]


def rep(gs, r, G=None):
    """build the library representation"""
    g = L()["g"]
    G = group(gs) if G is None else G
    k = r[0]
    if k == "triv":
        return G.trivial_representation
    if k == "irr":
        return G.irrep(*r[1:])
    if k == "reg":
        return G.regular_representation
    if k == "quo":
        return G.quotient_representation(sgid(r[1]))
    if k == "ind":
        sg, _, _ = G.subgroup(sgid(r[1]))
        return G.induced_representation(sgid(r[1]), sg.irrep(*r[2]))
    if k == "sum":
        # explicit distinct names: a default name only lists the names of the parts
        return g.directsum([rep(gs, x, G) for x in r[1]], name="sum_" + tag([gs, r]))
    if k == "cob":
        b = rep(gs, r[3], G)
        return g.change_basis(b, basis_matrix(r[1], r[2], b.size), "cob_" + tag([gs, r]),
                              supported_nonlinearities=cob_nonlin(r[1], b))
    if k == "nam":  # the same representation under a given name
        q = rep(gs, r[2], G)
        return g.Representation(G, r[1], list(q.irreps), np.array(q.change_of_basis), set(q.supported_nonlinearities),
                                change_of_basis_inv=np.array(q.change_of_basis_inv))
    if k == "res":
        q = rep(r[1], r[3]).restrict(sgid(r[2]))
        # rename: the default name does not mention the subgroup identifier
        return g.Representation(G, "res_" + tag([gs, r]), list(q.irreps), q.change_of_basis,
                                q.supported_nonlinearities, change_of_basis_inv=q.change_of_basis_inv)
    raise KeyError(k)


def cob_nonlin(kind, b):
    s = set(b.supported_nonlinearities)
    keep = set()
    if kind == "perm":
        keep = {"pointwise", "norm", "gated", "concatenated"} & s
    elif kind == "sign":
        keep = {"norm", "gated", "concatenated"} & s
    elif kind == "orth":
        keep = {"norm", "gated"} & s
    return sorted(keep)


# ---- symmetry spaces --------------------------------------------------------------------------------------------
GRID_AXES = [PI / 2, 0.0, PI / 4, 3 * PI / 4]


def axes(grid_only=False):
    s = st.sampled_from([PI / 2, PI / 2] + GRID_AXES)
    if grid_only:
        return s
    return st.one_of(s, st.floats(0, 6.2).map(lambda v: round(v, 4)), st.sampled_from([PI, 3 * PI / 2, PI / 6]))


def spaces(maxN=8, continuous=True, grid_axes=False, minN=2, maxm=3, Ns=None, big=True):
    N = weighted((11, st.integers(minN, maxN)), (1, st.sampled_from([8, 10, 12, 16, 24]))) if Ns is None and big else st.integers(minN, maxN) if Ns is None else st.sampled_from(Ns)
    opts = [N.map(lambda n: {"k": "rot", "N": n}),
            st.tuples(N, axes(grid_axes)).map(lambda t: {"k": "fliprot", "N": t[0], "axis": t[1]}),
            axes(grid_axes).map(lambda a: {"k": "flip", "axis": a}),
            st.just({"k": "triv"})]
    if continuous:
        opts += [st.integers(1, maxm).map(lambda m: {"k": "rot", "N": -1, "m": m}),
                 st.tuples(st.integers(1, maxm), axes(grid_axes)).map(
                     lambda t: {"k": "fliprot", "N": -1, "m": t[0], "axis": t[1]})]
    return st.one_of(*opts)


def gspec(sp):
    """group spec of a space spec"""
    k = sp["k"]
    if k == "triv":
        return ["C", 1]
    if k == "flip":
        return ["C", 2]
    if k == "rot":
        return ["C", sp["N"]] if sp["N"] > 0 else ["SO2", sp["m"]]
    return ["D", sp["N"]] if sp["N"] > 0 else ["O2", sp["m"]]


def space(sp):
    s = L()["s"]
    k = sp["k"]
    if k == "triv":
        return s.TrivialOnR2()
    if k == "flip":
        return s.Flip2dOnR2(axis=sp["axis"])
    if k == "rot":
        return s.Rot2dOnR2(N=sp["N"]) if sp["N"] > 0 else s.Rot2dOnR2(N=-1, maximum_frequency=sp["m"])
    return s.FlipRot2dOnR2(N=sp["N"], axis=sp["axis"]) if sp["N"] > 0 else \
        s.FlipRot2dOnR2(N=-1, maximum_frequency=sp["m"], axis=sp["axis"])


def grid_elements(sp):
    """element specs whose planar isometry maps the square pixel grid to itself"""
    from .ref import plane, is_grid
    gs = gspec(sp)
    a = all_elements(gs)
    if a is None:
        if gs[0] == "SO2":
            a = [k * PI / 2 for k in range(4)]
        else:
            a = [[0, k * PI / 2] for k in range(4)] + [[1, k * PI / 2 - 2 * sp["axis"]] for k in range(4)]
    return [e for e in a if is_grid(plane(sp, e))]


def homonyms(s):
    """lists of representations, sometimes all of them under the same name (names do not identify representations)"""
    return weighted((7, s), (1, s.map(lambda rs: [r if r[0] == "nam" else ["nam", "same", r] for r in rs])))


def repeated(gs, s, total, extra=3):
    """lists of representations in which fields also occur again, next to each other or interleaved"""
    fits = lambda rs: sum(rep_size(gs, r) for r in rs) <= total

    def f(rs):
        again = st.lists(st.sampled_from(rs), min_size=2, max_size=len(rs) + extra)
        inter = st.permutations(rs).map(lambda p: list(rs) + list(p))
        return weighted((4, st.just(rs)), (2, again), (1, inter), (1, st.just(list(rs) + list(rs[:1])))).map(lambda q: q if fits(q) else rs)
    return s.filter(fits).flatmap(f)


def field_lists(gs, maxfields=3, maxsize=8, total=16, **kw):
    return homonyms(repeated(gs, st.lists(reps(gs, maxsize=maxsize, **kw), min_size=1, max_size=maxfields), total))


def ftype(sp, rs, gsp=None):
    gsp = space(sp) if gsp is None else gsp
    gs = gspec(sp)
    cache = {}
    out = []
    for r in rs:
        key = json.dumps(r)
        if key not in cache:
            cache[key] = rep(gs, r, gsp.fibergroup)
        out.append(cache[key])
    return L()["n"].FieldType(gsp, out)


def tensor(seed, shape, mode="normal"):
    g = rng(seed)
    if mode == "int":
        x = g.integers(-4, 5, size=shape).astype(np.float64)
    else:
        x = g.standard_normal(shape)
    return x


def layout(x, kind):
    """the same values in another memory layout"""
    t = L()["torch"]
    if kind == 1:
        return x.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
    if kind == 2:
        return x.transpose(2, 3).contiguous().transpose(2, 3)
    if kind == 3:
        y = t.full(tuple(d + 1 for d in x.shape), float("nan"), dtype=x.dtype)
        y[:-1, 1:, :-1, 1:] = x
        return y[:-1, 1:, :-1, 1:]
    if kind == 4:
        return x.transpose(0, 1).contiguous().transpose(0, 1)
    return x


def gt(x, ft, lay=0):
    """lay=None: the memory layout (contiguous or not) is a function of the values, so that a check sees all of them
    (not used with convolutions: torch 2.2 itself crashes on 1x1 images with unusual strides)"""
    t = L()["torch"]
    x = np.asarray(x, dtype=np.float32)
    if lay is None:
        lay = zlib.crc32(x.tobytes()) % 10 if x.ndim == 4 and x.size else 0
    return L()["n"].GeometricTensor(layout(t.tensor(x), lay), ft)


def gtl(x, ft):
    return gt(x, ft, None)
