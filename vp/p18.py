"""P18: predicted output shapes are the actual output shapes."""
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import L, SEED, gt, gtl, gspec, ftype, space, rng, spaces, weighted, rep_size
from .ref import arr
from .layers import conv_specs, diff_specs, build
from .p16 import mixed, tup, two, types, KIND, n_out
from .p17 import (submodule, fields, labels_for, LABELS, sps, KINDS as SUBS, ref_branch, SHAPE)
from . import nets

RULE = "non-trivial: predicted and actual shape were compared and the output differs from the input in some dimension, or the image is rectangular"


def ints(s, what):
    need(isinstance(s, tuple), lambda: "%s: predicted shape is a %s" % (what, type(s).__name__))
    need(all(hasattr(v, "__index__") and not isinstance(v, bool) for v in s), lambda: "%s: predicted shape %r is not made of integers" % (what, s))
    return tuple(int(v) for v in s)


def agree(m, x, y, what):
    """prediction (from a tuple and a torch.Size) against the tensor y that m gave on x"""
    t = L()["torch"]
    got = tuple(int(v) for v in y.tensor.shape)
    for form in (tuple(x.shape), t.Size(x.shape)):
        s = ints(m.evaluate_output_shape(form), what)
        need(s == got, lambda: "%s on %s: predicted %s, actual %s" % (what, tuple(x.shape), s, got))
    need(y.type == m.out_type, "%s: the output does not have the declared type" % what)
    need(got[1] == m.out_type.size == sum(r.size for r in m.out_type.representations), "%s: number of output channels" % what)
    # predictions scale with the batch only
    b = (x.shape[0] + 3,) + tuple(x.shape[1:])
    need(ints(m.evaluate_output_shape(b), what) == (b[0],) + got[1:], "%s: prediction for another batch size" % what)
    return got != tuple(x.shape) or x.shape[2] != x.shape[3]


def call(m, x, lay=False):
    t = L()["torch"]
    with t.no_grad():
        return m((gtl if lay else gt)(x, m.in_type))


# ---- convolutions ------------------------------------------------------------------------------------------------
def s_conv():
    def f(sp):
        tc = conv_specs(sp, True, maxk=5, size=4, total=5).flatmap(lambda d: st.integers(0, max(d["s"], d["d"]) - 1).map(lambda o: dict(d, op=o)))
        return st.one_of(conv_specs(sp, maxk=6, size=4, total=5), tc, diff_specs(sp, size=4, total=4))
    return spaces(maxN=5, maxm=2).flatmap(f).flatmap(lambda l: st.fixed_dictionaries(
        {"layer": st.just(dict(l, s=l["s"])), "s2": st.sampled_from([None, None, 4, 5]), "hw": st.tuples(st.integers(1, 14), st.integers(1, 14)).map(list),
         "B": st.integers(1, 3), "x": SEED, "eval": st.booleans()}))


def c_conv(c):
    spec = dict(c["layer"])
    if c["s2"]:
        spec["s"] = c["s2"]
    m = build(spec)
    if m is None:
        return False
    k, s, d = m.kernel_size, spec["s"], spec["d"]
    h, w = c["hw"]
    if spec["kind"] == "tconv":
        p = spec["p"]
        want = [(z - 1) * s - 2 * p + d * (k - 1) + 1 + spec["op"] for z in (h, w)]
        if min(want) < 1 or max(want) > 60:
            return False
    else:
        p = two(spec["p"])
        if spec["mode"] == "reflect":
            h, w = max(h, p[0] + 1), max(w, p[1] + 1)
        elif spec["mode"] == "circular":
            h, w = max(h, p[0], 1), max(w, p[1], 1)
        if any(z + 2 * q < d * (k - 1) + 1 for z, q in zip((h, w), p)):
            return False
        want = [(z + 2 * q - d * (k - 1) - 1) // s + 1 for z, q in zip((h, w), p)]
    x = rng(c["x"]).standard_normal((c["B"], m.in_type.size, h, w)).astype(np.float32)
    if c["eval"]:
        m.eval()
    y = call(m, x)
    need(list(y.tensor.shape[2:]) == want, lambda: "%s: output size %s instead of %s" % (type(m).__name__, tuple(y.tensor.shape), want))
    return agree(m, x, y, type(m).__name__)


# ---- pooling and resizing ----------------------------------------------------------------------------------------
POOLS = ["max", "avg", "norm", "aamax", "aaavg", "amax", "aavg", "up"]


def s_pool():
    def f(t):
        sp, kind = t
        rs = types(gspec(sp), "pointwise" if kind in ("max", "aamax", "amax", "aavg") else "norm" if kind == "norm" else "any")
        return st.fixed_dictionaries({
            "sp": st.just(sp), "kind": st.just(kind), "rs": rs, "k": mixed(st.integers(1, 5)), "s": st.one_of(st.none(), mixed(st.integers(1, 5))),
            "p": mixed(st.integers(0, 2)), "d": mixed(st.sampled_from([1, 1, 2, 3])), "ceil": st.booleans(),
            "sigma": st.sampled_from([0.6, 0.4, 0.3, 1.0, 0.1, 0.66, 0.5]), "o": mixed(st.integers(1, 9)), "scale": st.sampled_from([None, 1, 2, 3, 5]),
            "near": st.booleans(), "align": st.booleans(), "pa": st.one_of(st.none(), mixed(st.integers(0, 3))),
            "hw": st.tuples(st.integers(1, 16), st.integers(1, 16)).map(list), "B": st.integers(1, 3), "x": SEED})
    return st.tuples(spaces(maxN=6, maxm=2), st.sampled_from(POOLS)).flatmap(f)


def c_pool(c):
    n = L()["n"]
    kind, (h, w) = c["kind"], c["hw"]
    ft = ftype(c["sp"], c["rs"])
    k = two(c["k"])
    p = tuple(min(a, b // 2) for a, b in zip(two(c["p"]), k))
    pp = p[0] if p[0] == p[1] else p
    s = k if c["s"] is None else two(c["s"])
    d = two(c["d"]) if kind in ("max", "norm") else (1, 1)
    want = None
    if kind in ("max", "avg", "norm", "aamax"):
        if any(z + 2 * a < e * (b - 1) + 1 for z, a, b, e in zip((h, w), p, k, d)):
            return False
        if any(a and b > 1 for a, b in zip(p, d)):
            return False
    if kind in ("max", "norm"):
        cls = n.PointwiseMaxPool if kind == "max" else n.NormMaxPool
        m = cls(ft, tup(c["k"]), stride=tup(c["s"]), padding=pp, dilation=tup(c["d"]), ceil_mode=c["ceil"])
        want = [n_out(z, k[i], s[i], p[i], d[i], c["ceil"]) for i, z in enumerate((h, w))]
    elif kind == "avg":
        m = n.PointwiseAvgPool(ft, tup(c["k"]), stride=tup(c["s"]), padding=pp, ceil_mode=c["ceil"])
        want = [n_out(z, k[i], s[i], p[i], 1, c["ceil"]) for i, z in enumerate((h, w))]
    elif kind == "aamax":
        m = n.PointwiseMaxPoolAntialiased(ft, tup(c["k"]), stride=tup(c["s"]), padding=pp, ceil_mode=c["ceil"], sigma=c["sigma"])
    elif kind == "aaavg":
        rad = int(round(3 * c["sigma"]))
        q = (rad, rad) if c["pa"] is None else two(c["pa"])
        if any(z + 2 * a < 2 * rad + 1 for z, a in zip((h, w), q)):
            return False
        s = two(c["s"] or 1)
        m = n.PointwiseAvgPoolAntialiased(ft, c["sigma"], tup(c["s"] or 1), padding=None if c["pa"] is None else tup(c["pa"]))
        want = [(z + 2 * q[i] - 2 * rad - 1) // s[i] + 1 for i, z in enumerate((h, w))]
    elif kind in ("amax", "aavg"):
        m = (n.PointwiseAdaptiveMaxPool if kind == "amax" else n.PointwiseAdaptiveAvgPool)(ft, tup(c["o"]))
        want = list(two(c["o"]))
    else:
        kw = dict(mode="nearest") if c["near"] else dict(align_corners=c["align"])
        if c["scale"] is None:
            m = n.R2Upsampling(ft, size=tup(c["o"]), **kw)
            want = list(two(c["o"]))
        else:
            m = n.R2Upsampling(ft, scale_factor=c["scale"], **kw)
            want = [h * c["scale"], w * c["scale"]]
    x = rng(c["x"]).standard_normal((c["B"], ft.size, h, w)).astype(np.float32)
    y = call(m, x, kind not in ("aamax", "aaavg"))
    if want is not None:
        need(list(y.tensor.shape[2:]) == want, lambda: "%s: output %s instead of %s" % (type(m).__name__, tuple(y.tensor.shape), want))
    return agree(m, x, y, type(m).__name__)


# ---- every layer alone and in networks ----------------------------------------------------------------------------
def s_net(minlen, maxlen):
    return lambda: nets.specs(sym=False, maxlen=maxlen, minlen=minlen).flatmap(lambda s: st.fixed_dictionaries(
        {"net": st.just(s), "B": st.integers(1, 3), "eval": st.booleans()}))


def c_net(c):
    spec = c["net"]
    net = nets.build(spec, sym=False)
    if net is None:
        return False
    x0 = nets.image(spec, net, c["B"])
    if c["eval"]:
        net.seq.eval()
    x, z = x0, gt(x0, net.first.ft)
    nt = False
    for m, stt in zip(net.mods, net.states[1:]):
        shape = np.empty(tuple(z.tensor.shape), np.bool_)
        if not c["eval"] and any("BatchNorm" in type(q).__name__ for q in m.modules()) and shape.shape[0] * shape.shape[2] * shape.shape[3] < 2:
            return False
        with L()["torch"].no_grad():
            z = m(z)
        nt = agree(m, shape, z, type(m).__name__) or nt
        if stt is not None:
            need(tuple(z.tensor.shape[2:]) == stt.hw, lambda: "%s: image size %s instead of %s" % (type(m).__name__, tuple(z.tensor.shape[2:]), stt.hw))
    y = call(net.seq, x0)
    agree(net.seq, x0, y, "network of %s" % [type(m).__name__ for m in net.mods])
    return nt


# ---- branching and merging ---------------------------------------------------------------------------------------
def s_branch():
    def f(sp):
        gs = gspec(sp)
        return fields(gs, 5, 14, 4).flatmap(lambda rs: st.fixed_dictionaries(
            {"sp": st.just(sp), "rs": st.just(rs), "labels": labels_for(len(rs)), "lv": st.integers(0, 3), "x": SEED, "shape": SHAPE,
             "stride": st.booleans(), "gated": st.booleans(), "kinds": st.lists(st.sampled_from(SUBS), min_size=1, max_size=3)}))
    return sps().flatmap(f)


def c_branch(c):
    n, t = L()["n"], L()["torch"]
    sp = c["sp"]
    S = space(sp)
    ft = ftype(sp, c["rs"], S)
    b = n.BranchingModule(ft, list(c["labels"]), reshuffle=c["lv"])
    B, h, w = c["shape"]
    x = rng(c["x"]).standard_normal((B, ft.size, h, w)).astype(np.float32)
    with t.no_grad():
        out = b(gt(x, ft))
        pred = b.evaluate_output_shape(tuple(x.shape))
        need(set(pred) == set(out), "labels of the prediction")
        for l in out:
            need(ints(pred[l], "branch") == tuple(out[l].tensor.shape), lambda: "branch %r: predicted %s, actual %s" % (l, pred[l], tuple(out[l].tensor.shape)))
            need(out[l].type == b.out_type[l], "type of branch %r" % l)
        mods = []
        ls = sorted(out)
        for i, l in enumerate(ls):
            mods.append((submodule(c["kinds"][i % len(c["kinds"])], b.out_type[l], c["x"] + i, c["stride"]), [l] if i % 2 else l))
        m = n.MergeModule(mods)
        m.eval()
        y = m(out)
        s = ints(m.evaluate_output_shape(**pred), "merge")
        need(s == tuple(y.tensor.shape), lambda: "merge of %s: predicted %s, actual %s" % ([type(q).__name__ for q, _ in mods], s, tuple(y.tensor.shape)))
        need(y.type == m.out_type, "type of the merged output")
        q = n.MultipleModule(ft, list(c["labels"]), mods, reshuffle=c["lv"])
        q.eval()
        agree(q, x, q(gt(x, ft)), "multiple branches %s" % [type(z).__name__ for z, _ in mods])
        if c["gated"]:
            l = ls[0]
            if all("gated" in r.supported_nonlinearities for r in b.out_type[l]):
                gate = n.FieldType(S, [S.trivial_repr] * len(b.out_type[l]))
                gm = n.GatedNonLinearity2((gate, b.out_type[l]))
                gx = rng(c["x"]).standard_normal((B, gate.size, h, w)).astype(np.float32)
                z = gm(gt(gx, gate), out[l])
                need(ints(gm.evaluate_output_shape(tuple(gx.shape), pred[l]), "gates") == tuple(z.tensor.shape) and z.type == gm.out_type, "GatedNonLinearity2: shape or type")
    return len(ls) > 1


FACETS = [Facet("convolution", s_conv, c_conv, 1500, rule=RULE), Facet("pooling", s_pool, c_pool, 5000, rule=RULE),
          Facet("layer", s_net(1, 1), c_net, 1500, rule=RULE), Facet("network", s_net(2, 6), c_net, 800, rule=RULE),
          Facet("branches", s_branch, c_branch, 1000, rule=RULE)]
