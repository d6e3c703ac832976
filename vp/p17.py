"""P17: structural modules equal the plain composition of their parts."""
import collections
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (homonyms, SEED, L, spaces, gspec, ftype, gt, gtl, rng, weighted, el, elements, test_elements, rep_size, reps, leaf_reps, irreps,
                  subgroup_ids, sub_spec, sub_embed, sgid, space, order, group)
from .ref import same, arr, fiber, blockdiag
from . import nets

RULE = "non-trivial: at least two fields of different sizes or representations and two labels (or a permutation other than the identity)"
LABELS = ["a", "b", "z", "B", "10", "9", "a b", "_x", "weight"]


def sps():
    return spaces(maxN=6, maxm=2)


def fields(gs, n=5, total=18, size=6):
    """a few distinct representations, repeated and interleaved"""
    one = reps(gs, maxsize=size, depth=1)
    pools = weighted((1, st.lists(one, min_size=1, max_size=1)), (3, st.lists(one, min_size=2, max_size=3, unique_by=str)),
                     (3, st.lists(one, min_size=2, max_size=3, unique_by=lambda r: rep_size(gs, r)) if order(gs) != 1 else
                      st.lists(one, min_size=1, max_size=3)))
    return homonyms(pools.flatmap(lambda p: weighted((1, st.integers(1, 2)), (4, st.integers(min(n, 3), n))).flatmap(
        lambda k: st.lists(st.sampled_from(p), min_size=k, max_size=k))).filter(lambda rs: sum(rep_size(gs, r) for r in rs) <= total))


def labels_for(n):
    return st.sampled_from([2, 3, 2, 3, 1]).flatmap(lambda k: st.lists(st.sampled_from(LABELS), min_size=k, max_size=k, unique=True)).flatmap(
        lambda p: st.lists(st.sampled_from(p), min_size=n, max_size=n))


def image(seed, ft, shape):
    return rng(seed).standard_normal((shape[0], ft.size, shape[1], shape[2])).astype(np.float32)



SHAPE = st.tuples(st.integers(1, 3), st.integers(1, 4), st.integers(1, 4)).map(list)


def split(ft, x):
    out, p = [], 0
    for r in ft.representations:
        out.append(x[:, p:p + r.size])
        p += r.size
    return out


def ref_order(ft, labels, lv):
    """field indices in the order in which they are handed out"""
    key = [(l, r.size, r.name) for l, r in zip(labels, ft.representations)]
    return sorted(range(len(labels)), key=lambda i: key[i][:lv])


def ref_branch(ft, labels, lv, x):
    blk = split(ft, x)
    out = collections.OrderedDict()
    for i in ref_order(ft, labels, lv):
        out.setdefault(labels[i], ([], []))
        out[labels[i]][0].append(ft.representations[i])
        out[labels[i]][1].append(blk[i])
    return {l: (rs, np.concatenate(bs, 1)) for l, (rs, bs) in out.items()}


def is_type(ft, space_, rs, what):
    need(ft.gspace == space_, what + ": symmetry space")
    need(list(ft.representations) == list(rs), lambda: "%s: declared type %s, data are %s" % (
        what, [r.name for r in ft.representations], [r.name for r in rs]))
    need(ft.size == sum(r.size for r in rs), what + ": size")


def same_type(a, b):
    return a.gspace == b.gspace and list(a.representations) == list(b.representations)


def interleaved(labels):
    return len(set(labels)) > 1 and sum(a != b for a, b in zip(labels, labels[1:])) >= len(set(labels))


# ---- branching ---------------------------------------------------------------------------------------------------
def c_branch(c):
    n = L()["n"]
    ft = ftype(c["sp"], c["rs"])
    labels = list(c["labels"])
    reps0 = list(ft.representations)
    m = n.BranchingModule(ft, labels, reshuffle=c["lv"])
    need(labels == c["labels"], "BranchingModule changed the list of labels")
    need(list(ft.representations) == reps0, "BranchingModule changed its input type")
    need(m.in_type == ft, "in_type")
    x = image(c["x"], ft, c["shape"])
    want = ref_branch(ft, c["labels"], c["lv"], x)
    g = gtl(x, ft)
    for rnd in range(2):
        out = m(g)
        need(set(out) == set(want) == set(m.out_type), lambda: "labels of the output: %s" % sorted(out))
        for l, (rs, v) in want.items():
            is_type(out[l].type, ft.gspace, rs, "label %r" % l)
            is_type(m.out_type[l], ft.gspace, rs, "out_type of label %r" % l)
            same(out[l], v, "branch %r (reshuffle %d)" % (l, c["lv"]), 0.0)
        m.eval()
    same(g, x, "the input after branching", 0.0)
    # each branch transforms as declared
    e = el(gspec(c["sp"]), c["e"])
    tout = m(gt(fiber(ft.representations, e, x.astype(np.float64)), ft))
    for l, (rs, v) in want.items():
        same(tout[l], fiber(out[l].type.representations, e, v.astype(np.float64)), "equivariance of branch %r" % l, 1e-5)
    return len(set(c["labels"])) > 1 and len(set(r.size for r in reps0)) > 1


def s_branch():
    return sps().flatmap(lambda sp: fields(gspec(sp), 7, 24).flatmap(lambda rs: st.fixed_dictionaries(
        {"sp": st.just(sp), "rs": st.just(rs), "labels": labels_for(len(rs)), "lv": st.integers(0, 3), "x": SEED, "shape": SHAPE,
         "e": elements(gspec(sp))})))


# ---- submodules for merge / multiple ------------------------------------------------------------------------------
KINDS = ["id", "conv1", "conv3", "shuffle", "relu", "dis", "pool", "bn", "seq"]


def submodule(kind, ft, seed, stride=False):
    n = L()["n"]
    if kind == "relu" and not nets.supp(ft, "pointwise"):
        kind = "conv1"
    if kind == "bn" and not nets.supp(ft, "pointwise"):
        kind = "dis"
    if kind == "pool" or stride:
        if kind in ("conv1", "conv3", "seq"):
            k = 1 if kind == "conv1" else 3
            m = quiet_conv(ft, seed, k, 2)
            if m is not None:
                return m
        return n.PointwiseAvgPool(ft, 3, stride=2, padding=1) if stride else n.PointwiseAvgPool(ft, 3, stride=1, padding=1)
    if kind == "id":
        return n.IdentityModule(ft)
    if kind in ("conv1", "conv3"):
        return quiet_conv(ft, seed, int(kind[-1]), 1) or n.IdentityModule(ft)
    if kind == "shuffle":
        return n.ReshuffleModule(ft, [int(i) for i in rng(seed).permutation(len(ft))])
    if kind == "relu":
        return n.ReLU(ft)
    if kind == "dis":
        return n.DisentangleModule(ft)
    if kind == "bn":
        m = n.InnerBatchNorm(ft)
        nets.randomise(m, seed)
        return m
    a = n.ReshuffleModule(ft, [int(i) for i in rng(seed).permutation(len(ft))])
    return n.SequentialModule(a, quiet_conv(a.out_type, seed, 3, 1) or n.IdentityModule(a.out_type))


def quiet_conv(ft, seed, k, stride):
    n = L()["n"]
    pool = [ft.gspace.trivial_repr] + list(ft.representations)
    g = rng(seed)
    fo = n.FieldType(ft.gspace, [pool[int(g.integers(len(pool)))] for _ in range(1 + int(g.integers(3)))])
    if fo.size * ft.size > 200:
        fo = n.FieldType(ft.gspace, [ft.gspace.trivial_repr])
    try:
        m = nets.quiet(lambda: n.R2Conv(ft, fo, k, padding=k // 2, stride=stride, initialize=False))
    except ValueError:
        return None
    nets.scale_weights(m, seed)
    return m


# ---- merging -----------------------------------------------------------------------------------------------------
def c_merge(c):
    n, t = L()["n"], L()["torch"]
    sp = c["sp"]
    S = space(sp)
    types, xs = {}, {}
    for i, (l, rs) in enumerate(c["in"]):
        types[l] = ftype(sp, rs, S)
        xs[l] = image(c["x"] + i, types[l], c["shape"])
    mods = []
    for l, kind, as_list, seed in c["mods"]:
        mods.append((submodule(kind, types[l], seed, c["stride"]), [l] if as_list else l))
    if c["gated"] and not c["stride"]:
        # a module with two inputs: gates and features
        l = c["in"][0][0]
        if all("gated" in r.supported_nonlinearities for r in types[l]):
            k = len(types[l])
            types["gates!"] = n.FieldType(S, [S.trivial_repr] * k)
            xs["gates!"] = image(c["x"] + 50, types["gates!"], c["shape"])
            gm = n.GatedNonLinearity2((types["gates!"], types[l]))
            nets.randomise(gm, c["x"])
            mods.insert(c["x"] % (len(mods) + 1), (gm, ["gates!", l]))
    given = list(mods)
    m = n.MergeModule(mods)
    need(len(mods) == len(given) and all(a is b for a, b in zip(mods, given)), "MergeModule changed its list of modules")
    need(all((l if isinstance(l, list) else [l]) == (k if isinstance(k, list) else [k]) for (_, l), (_, k) in zip(mods, given)), "labels")
    m.eval()
    gin = {l: gt(xs[l], types[l]) for l in xs}
    with t.no_grad():
        want, rs = [], []
        for q, l in mods:
            ls = l if isinstance(l, list) else [l]
            want.append(arr(q(*[gt(xs[i], types[i]) for i in ls])))
            rs += list(q.out_type.representations)
        for rnd in range(2):
            out = m(gin)
            is_type(out.type, S, rs, "merged output")
            is_type(m.out_type, S, rs, "out_type")
            same(out, np.concatenate(want, 1), "merged output of %s" % [type(q).__name__ for q, _ in mods], 1e-6)
        need(tuple(m.evaluate_output_shape(**{l: tuple(v.shape) for l, v in xs.items()})) == tuple(out.shape), "predicted shape")
        for l in xs:
            same(gin[l], xs[l], "input %r after merging" % l, 0.0)
    need(sum(p.numel() for p in m.parameters()) == sum(p.numel() for p in {id(p): p for q, _ in mods for p in q.parameters()}.values()),
         "parameters of the merged module")
    return len(mods) > 1


def s_merge():
    def f(sp):
        gs = gspec(sp)
        ins = st.lists(st.sampled_from(LABELS), min_size=1, max_size=3, unique=True).flatmap(
            lambda ls: st.tuples(*[st.tuples(st.just(l), fields(gs, 3, 8, 4)).map(list) for l in ls]).map(list))
        return ins.flatmap(lambda i: st.fixed_dictionaries({
            "sp": st.just(sp), "in": st.just(i), "x": SEED, "shape": SHAPE, "stride": st.sampled_from([False, False, True]), "gated": st.booleans(),
            "mods": st.lists(st.tuples(st.sampled_from([q[0] for q in i]), st.sampled_from(KINDS), st.booleans(), SEED).map(list),
                             min_size=1, max_size=4)}))
    return sps().flatmap(f)


# ---- multi-branch modules -------------------------------------------------------------------------------------------
def c_multi(c):
    n, t = L()["n"], L()["torch"]
    sp = c["sp"]
    S = space(sp)
    gs = gspec(sp)
    rs, labels = list(c["rs"]), list(c["labels"])
    gated = None
    if c["gated"]:
        # one label becomes a gated branch: as many gates, interleaved with the other fields
        l = labels[c["x"] % len(labels)]
        ft0 = ftype(sp, rs, S)
        if all("gated" in r.supported_nonlinearities for r, q in zip(ft0, labels) if q == l):
            g = rng(c["x"])
            for _ in range(labels.count(l)):
                p = int(g.integers(len(labels) + 1))
                rs.insert(p, ["triv"])
                labels.insert(p, "gates!")
            gated = l
    ft = ftype(sp, rs, S)
    x = image(c["x"], ft, c["shape"])
    br = ref_branch(ft, labels, c["lv"], x)
    types = {l: n.FieldType(S, q[0]) for l, q in br.items()}
    mods = []
    rest = [l for l in sorted(set(labels)) if l not in (gated, "gates!")]
    g = rng(c["x"] + 1)
    order_ = [rest[int(i)] for i in g.permutation(len(rest))]
    for i, l in enumerate(order_):
        q = c["kinds"][i % len(c["kinds"])]
        mods.append((submodule(q, types[l], c["x"] + i, c["stride"] and gated is None), [l] if g.integers(2) else l))
    if gated:
        gm = n.GatedNonLinearity2((types["gates!"], types[gated]))
        nets.randomise(gm, c["x"])
        mods.insert(int(g.integers(len(mods) + 1)), (gm, ["gates!", gated]))
    given, glabels = list(mods), list(labels)
    m = n.MultipleModule(ft, labels, mods, reshuffle=c["lv"])
    need(labels == glabels and len(mods) == len(given) and all(a is b for a, b in zip(mods, given)), "MultipleModule changed its arguments")
    m.eval()
    with t.no_grad():
        want, outs = [], []
        for q, l in given:
            ls = l if isinstance(l, list) else [l]
            want.append(arr(q(*[gt(br[i][1], types[i]) for i in ls])))
            outs += list(q.out_type.representations)
        gx = gt(x, ft)
        out = m(gx)
        need(m.in_type == ft, "in_type")
        is_type(out.type, S, outs, "output")
        is_type(m.out_type, S, outs, "out_type")
        same(out, np.concatenate(want, 1), "output of the branches %s (labels %s, reshuffle %d)" % (
            [(type(q).__name__, l) for q, l in given], labels, c["lv"]), 1e-6)
        same(gx, x, "the input", 0.0)
        need(tuple(m.evaluate_output_shape(tuple(x.shape))) == tuple(out.shape), "predicted shape")
        e = el(gs, c["e"])
        if not c["stride"] or gated:
            pass
        if not any(isinstance(q, n.R2Conv) or isinstance(q, n.SequentialModule) for q, _ in given):
            out2 = m(gt(fiber(ft.representations, e, x.astype(np.float64)), ft))
            same(out2, fiber(outs, e, arr(out)), "equivariance of the branches", 1e-4)
    return len(set(labels)) > 1


def s_multi():
    def f(sp):
        gs = gspec(sp)
        return fields(gs, 6, 14, 4).flatmap(lambda rs: st.fixed_dictionaries(
            {"sp": st.just(sp), "rs": st.just(rs), "labels": labels_for(len(rs)), "lv": st.integers(0, 3), "x": SEED, "shape": SHAPE,
             "gated": st.booleans(), "stride": st.sampled_from([False, False, True]), "e": elements(gs),
             "kinds": st.lists(st.sampled_from(KINDS), min_size=1, max_size=3)}))
    return sps().flatmap(f)


# ---- reshuffle, restriction, disentangling, identity -----------------------------------------------------------------
def c_order(c):
    n, g_ = L()["n"], L()["g"]
    sp, gs = c["sp"], gspec(c["sp"])
    ft = ftype(sp, c["rs"])
    S = ft.gspace
    x = image(c["x"], ft, c["shape"])
    gx = gtl(x, ft)
    blk = split(ft, x)
    perm = list(c["perm"])
    m = n.ReshuffleModule(ft, perm)
    need(perm == c["perm"], "ReshuffleModule changed the permutation")
    out = m(gx)
    is_type(out.type, S, [ft.representations[i] for i in perm], "reshuffled")
    is_type(m.out_type, S, [ft.representations[i] for i in perm], "reshuffled out_type")
    same(out, np.concatenate([blk[i] for i in perm], 1), "reshuffling by %s" % perm, 0.0)
    inv = [perm.index(i) for i in range(len(perm))]
    back = n.ReshuffleModule(m.out_type, inv)(out)
    need(back.type == ft, "reshuffling back: type")
    same(back, x, "reshuffling back", 0.0)
    i = n.IdentityModule(ft)
    same(i(gx), x, "identity", 0.0)
    need(i(gx).type == ft and i.in_type == ft and i.out_type == ft, "identity: types")
    # disentangling: field by field with the matrices of the group module
    d = n.DisentangleModule(ft)
    out = d(gx)
    rs, v = [], []
    for r, b in zip(ft.representations, blk):
        cob, parts = g_.disentangle(r)
        rs += list(parts)
        v.append(np.einsum("oi,bi...->bo...", np.asarray(cob), b.astype(np.float64)))
    is_type(out.type, S, rs, "disentangled")
    is_type(d.out_type, S, rs, "disentangled out_type")
    same(out, np.concatenate(v, 1), "disentangling", 1e-5)
    same(gx, x, "the input", 0.0)
    e = el(gs, c["e"])
    same(d(gt(fiber(ft.representations, e, x.astype(np.float64)), ft)), fiber(rs, e, arr(out)), "equivariance of disentangling", 1e-4)
    # restriction: the values stay, the type is that of the subgroup
    sid = sgid(c["s"])
    q = n.RestrictionModule(ft, sid)
    out = q(gx)
    same(out, x, "restriction", 0.0)
    need(out.type == q.out_type == ft.restrict(sid), "restriction: type")
    need(len(out.type) == len(ft) and [r.size for r in out.type] == [r.size for r in ft], "restriction: fields")
    h = c["h"]
    if h is not None:
        hs = sub_spec(gs, c["s"])
        a = fiber(out.type.representations, el(hs, h), x.astype(np.float64))
        b = fiber(ft.representations, el(gs, sub_embed(gs, c["s"], h)), x.astype(np.float64))
        same(a, b, "the restricted type acts like the subgroup of the group", 1e-6)
    # the usual pair: restriction followed by disentangling
    d2 = n.DisentangleModule(q.out_type)
    out2 = d2(out)
    v, rs2 = [], []
    for r, b in zip(q.out_type.representations, blk):
        cob, parts = g_.disentangle(r)
        rs2 += list(parts)
        v.append(np.einsum("oi,bi...->bo...", np.asarray(cob), b.astype(np.float64)))
    is_type(out2.type, q.out_type.gspace, rs2, "restricted and disentangled")
    same(out2, np.concatenate(v, 1), "disentangling after restriction", 1e-5)
    return len(set(r.size for r in ft.representations)) > 1 and perm != sorted(perm)


def s_order():
    def f(sp):
        gs = gspec(sp)
        return st.tuples(fields(gs, 6, 20), subgroup_ids(gs)).flatmap(lambda t: st.fixed_dictionaries(
            {"sp": st.just(sp), "rs": st.just(t[0]), "perm": st.permutations(list(range(len(t[0])))).map(list), "x": SEED, "shape": SHAPE,
             "e": elements(gs), "s": st.just(t[1]), "h": elements(sub_spec(gs, t[1]))}))
    return sps().flatmap(f)


# ---- sequences -----------------------------------------------------------------------------------------------------
NAMES = ["conv", "b", "a", "10", "9", "2", "x y", "B", "act_1", "0", "1"]


def c_seq(c):
    n, t = L()["n"], L()["torch"]
    spec = c["net"]
    net = nets.build(spec, sym=False, inplace=False)
    if net is None:
        return False
    mods = net.mods
    names = [NAMES[i] + ("" if j < len(NAMES) else str(j)) for j, i in enumerate((c["names"] * 40)[:len(mods)])]
    if len(set(names)) < len(names):
        names = ["%s_%d" % (q, (7 * j) % 64) for j, q in enumerate(names)]
    how = c["how"]
    if how == "args":
        seq = n.SequentialModule(*mods)
    elif how == "dict":
        od = collections.OrderedDict(zip(names, mods))
        seq = n.SequentialModule(od)
        need(list(od.keys()) == names and all(a is b for a, b in zip(od.values(), mods)), "SequentialModule changed its argument")
    elif how == "add":
        seq = n.SequentialModule(mods[0])
        for q, m in zip(names[1:], mods[1:]):
            seq.add_module("m" + q, m)
    else:  # nested in two halves
        k = max(1, len(mods) // 2)
        parts = [p for p in (mods[:k], mods[k:]) if p]
        seq = n.SequentialModule(*[n.SequentialModule(*p) for p in parts])
    need(seq.in_type == mods[0].in_type, "in_type of a sequence")
    need(seq.out_type == mods[-1].out_type, "out_type of a sequence")
    x = nets.image(spec, net)
    outs = []
    for mode in (False, True):
        seq.train(mode)
        need(all(m.training == mode for m in mods), "training flags of the parts")
        with t.no_grad():
            t.manual_seed(5)
            state = {k: v.clone() for k, v in seq.state_dict().items()}
            y = seq(gt(x, net.first.ft))
            seq.load_state_dict(state)
            t.manual_seed(5)
            z = gt(x, net.first.ft)
            for m in mods:
                z = m(z)
            seq.load_state_dict(state)
        need(y.type == z.type == seq.out_type, "type of the output")
        same(np.nan_to_num(arr(y)), np.nan_to_num(arr(z)), "sequence (%s) of %s against the composition" % (how, [type(m).__name__ for m in mods]), 1e-6)
        outs.append(arr(y))
    need({id(p) for p in seq.parameters()} == {id(p) for m in mods for p in m.parameters()}, "parameters of the sequence")
    if len({id(m) for m in mods}) == len(mods) and how in ("args", "dict", "add"):
        need(len(list(seq.children())) == len(mods) and all(a is b for a, b in zip(seq.children(), mods)), "children in order")
    return len(mods) > 1


def s_seq():
    return nets.specs(sym=False, maxlen=4, minlen=1).flatmap(lambda s: st.fixed_dictionaries(
        {"net": st.just(s), "how": st.sampled_from(["args", "dict", "add", "nest"]),
         "names": st.permutations(list(range(len(NAMES)))).map(list)}))


# ---- module lists: histories against a plain Python list --------------------------------------------------------------
OPER = weighted(
    (3, st.tuples(st.just("append"), st.integers(0, 5)).map(list)),
    (3, st.tuples(st.just("insert"), st.integers(0, 6), st.integers(0, 5)).map(list)),
    (2, st.tuples(st.just("extend"), st.lists(st.integers(0, 5), max_size=3)).map(list)),
    (2, st.tuples(st.just("set"), st.integers(-6, 6), st.integers(0, 5)).map(list)),
    (2, st.tuples(st.just("del"), st.integers(-6, 6)).map(list)),
    (2, st.tuples(st.just("slice"), st.integers(-4, 6), st.integers(-4, 6)).map(list)),
    (1, st.tuples(st.just("bad"), st.sampled_from(["append", "insert", "extend", "set", "init"])).map(list)))


def c_list(c):
    n, t = L()["n"], L()["torch"]
    ft = ftype(c["sp"], c["rs"])
    k = len(ft)
    pool = [n.IdentityModule(ft)] + [n.ReshuffleModule(ft, [int(i) for i in rng(s).permutation(k)]) for s in (1, 2)] + \
        [quiet_conv(ft, s, 1, 1) or n.IdentityModule(ft) for s in (3, 4)] + [n.RestrictionModule(ft, sgid(c["s"]))]
    model = [pool[i] for i in c["init"]]
    ml = n.ModuleList(list(model)) if c["init"] or c["arg"] else n.ModuleList()
    bad = t.nn.Linear(2, 2)

    def check(ml, model, what):
        need(len(ml) == len(model), lambda: "%s: length %d, expected %d" % (what, len(ml), len(model)))
        need(all(a is b for a, b in zip(ml, model)), lambda: "%s: other modules or order" % what)
        for i in range(-len(model), len(model)):
            need(ml[i] is model[i], lambda: "%s: index %d" % (what, i))
        need({id(p) for p in ml.parameters()} == {id(p) for m in model for p in m.parameters()}, what + ": parameters")
    check(ml, model, "initial list")
    for o in c["ops"]:
        if o[0] == "append":
            ml.append(pool[o[1]])
            model.append(pool[o[1]])
        elif o[0] == "insert":
            i = o[1] % (len(model) + 1)
            ml.insert(i, pool[o[2]])
            model.insert(i, pool[o[2]])
        elif o[0] == "extend":
            ml.extend([pool[i] for i in o[1]])
            model.extend([pool[i] for i in o[1]])
        elif o[0] == "set" and model:
            i = o[1] % len(model) - (len(model) if o[1] < 0 else 0)
            ml[i] = pool[o[2]]
            model[i] = pool[o[2]]
        elif o[0] == "del" and model:
            i = o[1] % len(model)
            del ml[i]
            del model[i]
        elif o[0] == "slice":
            sub = ml[o[1]:o[2]]
            check(sub, model[o[1]:o[2]], "slice %s" % o[1:])
        elif o[0] == "bad":
            f = {"append": lambda: ml.append(bad), "insert": lambda: ml.insert(0, bad), "extend": lambda: ml.extend([bad]),
                 "init": lambda: n.ModuleList([bad]), "set": lambda: ml.__setitem__(0, bad) if model else ml.append(bad)}[o[1]]
            try:
                f()
                need(False, "ModuleList accepted a module which is not equivariant (%s)" % o[1])
            except (AssertionError, TypeError, ValueError):
                pass
        check(ml, model, "after %s" % o)
    return len(c["ops"]) > 1 and len(model) > 1


def s_list():
    def f(sp):
        return st.fixed_dictionaries({"sp": st.just(sp), "rs": fields(gspec(sp), 3, 6, 4), "s": subgroup_ids(gspec(sp)),
                                      "init": st.lists(st.integers(0, 5), max_size=3), "arg": st.booleans(),
                                      "ops": st.lists(OPER, min_size=1, max_size=8)})
    return sps().flatmap(f)


FACETS = [Facet("branch", s_branch, c_branch, 2500, rule="two labels and two field sizes"),
          Facet("merge", s_merge, c_merge, 1200, rule="at least two modules"),
          Facet("multiple", s_multi, c_multi, 1800, rule="at least two labels"),
          Facet("order", s_order, c_order, 1500, rule="fields of different sizes and a permutation which is not the identity"),
          Facet("sequence", s_seq, c_seq, 600, rule="at least two modules"),
          Facet("list", s_list, c_list, 500, rule="at least two operations and two modules")]
