"""P09: typed tensors and field types behave like lists of typed channel blocks."""
import copy
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need, Violation
from .gen import (el, elements, SEED, L, spaces, space, gspec, ftype, field_lists, tensor, gt, rep, rep_size, reps, weighted,
                  test_elements)
from .ref import same, ref_rep, blockdiag, arr, fiber, rejects

RULE_T = "non-trivial: the field type has at least two fields of different size."
RULE_O = "non-trivial: at least two operations, at least one of which changes the fields or combines two tensors."
RULE_I = "non-trivial: at least two fields and the index selects a proper part or reorders."


# ---- field types -------------------------------------------------------------------------------------------------
def s_types():
    return spaces(maxN=8, maxm=4).flatmap(lambda sp: st.lists(reps(gspec(sp), maxsize=8), min_size=1, max_size=4).flatmap(
        lambda pool: st.fixed_dictionaries(
            {"sp": st.just(sp), "pool": st.just(pool),
             "a": st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=6),
             "b": st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=6),
             "sel": st.lists(st.integers(0, 30), min_size=1, max_size=7),
             "lab": st.lists(st.sampled_from(["x", "y", "zz", "a"]), min_size=6, max_size=6),
             "g": elements(gspec(sp))})))


def list_type(what, ft, G, reps_, g):
    """ft describes exactly the list reps_ of library representations"""
    need(list(ft.representations) == reps_, "%s: wrong representations" % what)
    need(all(a is b or a == b for a, b in zip(ft, reps_)), "%s: iteration differs" % what)
    need(len(ft) == len(reps_), "%s: length %d for %d fields" % (what, len(ft), len(reps_)))
    need(ft.size == sum(r.size for r in reps_), "%s: size %s" % (what, ft.size))
    s = np.concatenate([[0], np.cumsum([r.size for r in reps_])])
    need([int(v) for v in ft.fields_start] == [int(v) for v in s[:-1]], "%s: fields_start %s" % (what, list(ft.fields_start)))
    need([int(v) for v in ft.fields_end] == [int(v) for v in s[1:]], "%s: fields_end %s" % (what, list(ft.fields_end)))
    need(ft.fields_names() == [r.name for r in reps_], "%s: fields_names" % what)
    need(list(ft.irreps) == [i for r in reps_ for i in r.irreps], "%s: irreps" % what)
    Q = blockdiag([np.asarray(r.change_of_basis) for r in reps_])
    Qi = blockdiag([np.asarray(r.change_of_basis_inv) for r in reps_])
    same(ft.change_of_basis.toarray(), Q, what + ": change of basis")
    same(ft.change_of_basis_inv.toarray(), Qi, what + ": inverse change of basis")
    same(ft.get_dense_change_of_basis(), Q, what + ": dense change of basis", 1e-6)
    same(ft.get_dense_change_of_basis_inv(), Qi, what + ": dense inverse change of basis", 1e-6)
    R = ft.representation
    need(R.size == ft.size and R.group == ft.fibergroup, "%s: full representation has the wrong size or group" % what)
    same(R(g), blockdiag([np.asarray(r(g)) for r in reps_]), what + ": full representation at %r" % (g,), 1e-7)
    need(hash(ft) == hash(ft), "%s: unstable hash" % what)


def c_types(c):
    sp = c["sp"]
    gs = gspec(sp)
    S = space(sp)
    n = L()["n"]
    pool = [rep(gs, r, S.fibergroup) for r in c["pool"]]
    g = el(gs, c["g"])
    A, B = [pool[i] for i in c["a"]], [pool[i] for i in c["b"]]
    A0, B0 = list(A), list(B)
    fa, fb = n.FieldType(S, A), n.FieldType(S, B)
    list_type("field type", fa, S.fibergroup, A0, g)
    same(np.asarray(fa.representation(g)), blockdiag([ref_rep(gs, c["pool"][i], c["g"]) for i in c["a"]]),
         "field type representation", 1e-6)
    # addition
    fs = fa + fb
    list_type("sum of field types", fs, S.fibergroup, A0 + B0, g)
    f2 = fa + fa
    list_type("sum of a field type with itself", f2, S.fibergroup, A0 + A0, g)
    # selection (with repetitions and any order)
    sel = [i % len(A) for i in c["sel"]]
    sel0 = list(sel)
    list_type("index_select(%s)" % sel, fa.index_select(sel), S.fibergroup, [A0[i] for i in sel], g)
    need(sel == sel0, "index_select modified its argument")
    rejects(lambda: fa.index_select([0, len(A)]), "index_select beyond the last field")
    rejects(lambda: fa.index_select([-1]), "index_select of a negative field")
    # sorting: by size, stable
    p = sorted(range(len(A)), key=lambda i: (A0[i].size, i))
    list_type("sorted()", fa.sorted(), S.fibergroup, [A0[i] for i in p], g)
    # grouping by labels
    lab = c["lab"][:len(A)]
    lab0 = list(lab)
    d = fa.group_by_labels(lab)
    need(lab == lab0, "group_by_labels modified its argument")
    need(set(d) == set(lab), "group_by_labels keys %s for labels %s" % (sorted(d), lab))
    for l in set(lab):
        list_type("group_by_labels[%s]" % l, d[l], S.fibergroup, [r for r, m in zip(A0, lab) if m == l], g)
    rejects(lambda: fa.group_by_labels(lab + ["x"]), "group_by_labels with too many labels")
    # the original types were not modified
    list_type("field type after use", fa, S.fibergroup, A0, g)
    list_type("other field type after use", fb, S.fibergroup, B0, g)
    need(A == A0 and B == B0, "the list given to the constructor was modified")
    # equality and hashing
    same_lists = len(A0) == len(B0) and all(a == b for a, b in zip(A0, B0))
    need((fa == fb) == same_lists, "types with %s lists compare %s" % ("equal" if same_lists else "different", fa == fb))
    need((fa != fb) == (not same_lists), "!= disagrees with ==")
    again = n.FieldType(space(sp), list(A0))
    need(again == fa and hash(again) == hash(fa), "the same list of fields gives an unequal type or hash")
    if same_lists:
        need(hash(fa) == hash(fb), "equal types have different hashes")
    return len({r.size for r in A0}) > 1


# ---- indexing ----------------------------------------------------------------------------------------------------
def slices(n, step=True):
    b = st.one_of(st.none(), st.integers(-n - 2, n + 2))
    return st.tuples(st.just("s"), b, b, st.sampled_from([None, 1, 1, 2, 3, -1, -2]) if step else st.sampled_from([None, 1, 2])).map(list)


def index_list(nf, shape):
    dims = [shape[0], nf] + shape[1:]

    def item(k, d):
        i = st.tuples(st.just("i"), st.integers(-d - 1, d)).map(list)
        return weighted((3, slices(d, k == 1)), (2, i), (1, st.just(["s", None, None, None])))
    full = [st.tuples(*[item(k, d) for k, d in enumerate(dims[:m])]).map(list) for m in (2, 2, 3, 4, 1)]
    # an ellipsis: leading axes then trailing axes
    el_ = [st.tuples(*([item(k, dims[k]) for k in range(a)] + [st.just(["e"])] + [item(4 - b + k, dims[4 - b + k]) for k in range(b)])).map(list)
           for a, b in [(2, 0), (2, 1), (1, 2), (0, 3), (1, 0), (0, 1), (0, 0)]]
    return st.one_of(*(full + el_))


def s_index():
    return spaces(maxN=6, maxm=3).flatmap(lambda sp: st.lists(reps(gspec(sp), maxsize=5, depth=1), min_size=1, max_size=6).flatmap(
        lambda rs: st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3)).map(list).flatmap(
            lambda sh: st.fixed_dictionaries({"sp": st.just(sp), "rs": st.just(rs), "shape": st.just(sh),
                                              "idx": index_list(len(rs), sh), "seed": SEED, "g": elements(gspec(sp)),
                                              "bare": st.booleans()}))))


def to_py(i):
    return {"i": lambda: i[1], "s": lambda: slice(*i[1:]), "e": lambda: Ellipsis}[i[0]]()


def model_index(blocks, shape, idx):
    """blocks: list of [B, c, H, W]; returns (selected field numbers, batch slice, h slice, w slice) or raises IndexError"""
    dims = [shape[0], len(blocks)] + shape[1:]
    items = []
    for i in idx:
        if i[0] == "e":
            items += [["s", None, None, None]] * (4 - (len(idx) - 1))
        else:
            items.append(i)
    items += [["s", None, None, None]] * (4 - len(items))
    sel = []
    for d, i in zip(dims, items):
        if i[0] == "i":
            sel.append([range(d)[i[1]]])
        else:
            sel.append(list(range(d)[slice(*i[1:])]))
    return sel


def in_range_but_beyond(dims, idx):
    """all out-of-range integers are non-negative and not over the fields"""
    items = []
    for i in idx:
        items += [["s"]] * (4 - (len(idx) - 1)) if i[0] == "e" else [i]
    return all(i[0] != "i" or -d <= i[1] and (k != 1 or i[1] < d) for k, (d, i) in enumerate(zip(dims, items)))


def c_index(c):
    sp = c["sp"]
    gs = gspec(sp)
    ft = ftype(sp, c["rs"])
    shape = c["shape"]
    B, H, W = shape
    x = tensor(c["seed"], (B, ft.size, H, W)).astype(np.float32)
    X = gt(x, ft)
    starts = np.concatenate([[0], np.cumsum([r.size for r in ft.representations])]).astype(int)
    blocks = [x[:, a:b] for a, b in zip(starts[:-1], starts[1:])]
    idx = c["idx"]
    key = tuple(to_py(i) for i in idx)
    if len(key) == 1 and c["bare"]:
        key = key[0]
    try:
        sel = model_index(blocks, shape, idx)
    except IndexError:
        try:
            r = X[key]
        except IndexError:
            return True
        except Exception as e:
            if in_range_but_beyond([shape[0], len(blocks)] + shape[1:], idx):
                return False  # (and no field is selected)
            raise Violation("index %r is out of range and raised %s instead of IndexError" % (key, type(e).__name__))
        # a single non-negative index beyond the end of the batch or spatial axes selects nothing, like a slice
        dims = [shape[0], len(blocks)] + shape[1:]
        if 0 in r.tensor.shape and in_range_but_beyond(dims, idx):
            return False
        raise Violation("out-of-range index %r returned a tensor of shape %s and %d fields" % (key, tuple(r.shape), len(r.type)))
    if not sel[1]:
        rejects(lambda: X[key], "index %r selecting no field" % (key,))
        return False
    got = X[key]
    want = np.concatenate([blocks[f] for f in sel[1]], axis=1)[np.ix_(sel[0], range(sum(blocks[f].shape[1] for f in sel[1])), sel[2], sel[3])]
    need(list(got.type.representations) == [ft.representations[f] for f in sel[1]],
         "index %r: fields %s, expected %s" % (key, got.type.fields_names(), [ft.representations[f].name for f in sel[1]]))
    need(got.type.gspace == ft.gspace, "indexing changed the space")
    same(got, want, "index %r" % (key,), 0)
    need(tuple(got.shape) == tuple(got.tensor.shape) == tuple(got.size()), "shape / size() differ from the tensor")
    same(X, x, "the tensor indexed by %r" % (key,), 0)
    need(X.type == ft and len(X.type) == len(c["rs"]), "indexing modified the type")
    # commutes with the fibers' action
    g = el(gs, c["g"])
    if want.size:
        same(X.transform_fibers(g)[key], got.transform_fibers(g), "indexing and transforming", 5e-5)
    return len(c["rs"]) > 1 and sel[1] != list(range(len(c["rs"])))


# ---- histories of operations -------------------------------------------------------------------------------------
OPS = st.one_of(
    st.tuples(st.just("slice"), SEED, SEED, st.integers(1, 2)).map(list),
    st.tuples(st.just("field"), SEED, SEED).map(list),
    st.tuples(st.just("split"), SEED, st.lists(SEED, max_size=3)).map(list),
    st.tuples(st.just("cat"), st.lists(SEED, min_size=1, max_size=3)).map(list),
    st.tuples(st.sampled_from(["add", "sub", "iadd", "isub"]), SEED, SEED).map(list),
    st.tuples(st.sampled_from(["mul", "rmul", "imul"]), SEED, st.sampled_from([0.0, 1.0, -2.0, 0.5, 3.25]), st.booleans()).map(list),
    st.tuples(st.just("batch"), SEED, SEED).map(list),
    st.tuples(st.just("copy"), SEED).map(list),
    st.tuples(st.just("new"), SEED).map(list))


def s_hist():
    return spaces(maxN=6, maxm=3).flatmap(lambda sp: st.lists(reps(gspec(sp), maxsize=5, depth=1), min_size=1, max_size=4).flatmap(
        lambda rs: st.fixed_dictionaries({"sp": st.just(sp), "rs": st.just(rs), "shape": st.tuples(
            st.integers(1, 3), st.integers(1, 3), st.integers(1, 3)).map(list), "seed": SEED,
            "ops": st.lists(OPS, min_size=1, max_size=9), "g": elements(gspec(sp))})))


def c_hist(c):
    sp = c["sp"]
    gs = gspec(sp)
    n = L()["n"]
    t = L()["torch"]
    S = space(sp)
    pool = [rep(gs, r, S.fibergroup) for r in c["rs"]]
    g = el(gs, c["g"])
    ft = n.FieldType(S, list(pool))
    B, H, W = c["shape"]

    def fresh(seed, fields, b=B):
        x = tensor(seed, (b, sum(pool[f].size for f in fields), H, W)).astype(np.float32)
        return [n.GeometricTensor(t.tensor(x.copy()), n.FieldType(S, [pool[f] for f in fields])), x.copy(), list(fields)]

    def own(X, m, f):
        # whether a selection is a view of its source is left open: continue with a copy
        return [n.GeometricTensor(X.tensor.clone(), X.type), m.copy(), f]
    # an entry: [library tensor, numpy model, field numbers]
    state = [fresh(c["seed"], range(len(pool)))]
    changed = False

    def bounds(fields):
        return np.concatenate([[0], np.cumsum([pool[f].size for f in fields])]).astype(int)

    def verify(what):
        for k, (X, m, f) in enumerate(state):
            need(list(X.type.representations) == [pool[i] for i in f],
                 "after %s: tensor %d has fields %s, expected %s" % (what, k, X.type.fields_names(), [pool[i].name for i in f]))
            need(X.type.gspace == S, "after %s: wrong space" % what)
            same(X, m, "after %s: tensor %d" % (what, k), 1e-5)

    for op in c["ops"]:
        k = op[0]
        if len(state) > 12:
            break
        pick = lambda s: state[s % len(state)]
        if k == "slice":
            X, m, f = pick(op[1])
            a = op[2] % len(f)
            b = a + 1 + (op[2] // 7) % (len(f) - a)
            step = op[3]
            s = bounds(f)
            if step == 1:
                state.append(own(X[:, a:b], m[:, s[a]:s[b]], f[a:b]))
            else:
                ids = list(range(a, b, step))
                state.append(own(X[:, a:b:step], np.concatenate([m[:, s[i]:s[i + 1]] for i in ids], 1), [f[i] for i in ids]))
            changed = changed or len(f) > 1
        elif k == "field":
            X, m, f = pick(op[1])
            a = op[2] % len(f)
            s = bounds(f)
            state.append(own(X[:, a], m[:, s[a]:s[a + 1]], [f[a]]))
            changed = changed or len(f) > 1
        elif k == "split":
            X, m, f = pick(op[1])
            br = sorted({v % len(f) for v in op[2]} - {0})
            s = bounds(f)
            arg = list(br) if op[1] % 3 else None
            if arg is None:
                br = list(range(1, len(f)))
            parts = X.split(arg)
            need(arg is None or arg == br, "split modified its argument: %s became %s" % (br, arg))
            need(len(parts) == len(br) + 1, "split(%s) returned %d tensors" % (arg, len(parts)))
            for a, b, P in zip([0] + br, br + [len(f)], parts):
                state.append(own(P, m[:, s[a]:s[b]], f[a:b]))
            changed = changed or len(f) > 1
            if arg is not None:
                parts = X.split(arg)  # the same list again
                need(len(parts) == len(br) + 1, "a second split with the same list returned %d tensors" % len(parts))
        elif k == "cat":
            es = [pick(v) for v in op[1]]
            es = [e for e in es if e[1].shape[0] == es[0][1].shape[0]]
            if sum(len(e[2]) for e in es) > 14:
                continue
            ts = [e[0] for e in es]
            T = n.tensor_directsum(ts)
            need(len(ts) == len(es), "tensor_directsum modified its argument")
            T = n.GeometricTensor(T.tensor.clone(), T.type)
            state.append([T, np.concatenate([e[1] for e in es], 1), [i for e in es for i in e[2]]])
            changed = True
        elif k in ("add", "sub", "iadd", "isub"):
            X, m, f = pick(op[1])
            cand = [e for e in state if e[2] == f and e[1].shape == m.shape]
            Y = cand[op[2] % len(cand)]
            if k in ("add", "sub"):
                r = X + Y[0] if k == "add" else X - Y[0]
                state.append([r, m + Y[1] if k == "add" else m - Y[1], list(f)])
                changed = True
            else:
                if np.shares_memory(m, Y[1]):
                    o = fresh(op[2], f, m.shape[0])
                    Y = o
                y0 = arr(Y[0]).copy()
                before = X
                if k == "iadd":
                    X += Y[0]
                    m += Y[1]
                else:
                    X -= Y[0]
                    m -= Y[1]
                need(X is before, "in-place arithmetic returned another object")
                same(Y[0], y0, "operand of %s" % k, 0)
                changed = True
        elif k in ("mul", "rmul", "imul"):
            X, m, f = pick(op[1])
            v = op[2]
            s = t.tensor(v) if op[3] else v
            if k == "mul":
                state.append([X * s, m * np.float32(v), list(f)])
            elif k == "rmul":
                # a torch scalar on the left dispatches to torch, so only floats are used there
                state.append([v * X, m * np.float32(v), list(f)])
            else:
                before = X
                X *= s
                need(X is before, "in-place multiplication returned another object")
                m *= np.float32(v)
        elif k == "batch":
            X, m, f = pick(op[1])
            i = op[2] % m.shape[0]
            state.append(own(X[i], m[i:i + 1], list(f)))
        elif k == "copy":
            X, m, f = pick(op[1])
            Y = X.to(t.float64)
            need(Y.tensor.dtype == t.float64 and X.tensor.dtype == t.float32, "to(dtype) wrong dtype")
            same(Y, m, "to(float64)", 1e-5)
            need(Y.type == X.type, "to() changed the type")
            Z = X.to(t.float64).to(t.float32)
            state.append([Z, m.copy(), list(f)])
        elif k == "new":
            state.append(fresh(op[1], state[op[1] % len(state)][2]))
        verify(k)
    # every tensor still transforms as its declared type
    for X, m, f in state[:4]:
        same(X.transform_fibers(g), fiber([pool[i] for i in f], g, m.astype(np.float64)), "transforming the result", 1e-4)
    return changed and len(c["ops"]) >= 2


FACETS = [Facet("types", s_types, c_types, 1500, rule=RULE_T),
          Facet("index", s_index, c_index, 4000, rule=RULE_I),
          Facet("histories", s_hist, c_hist, 2000, rule=RULE_O)]
