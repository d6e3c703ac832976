"""Networks assembled from the library's layers.  A program is a list of instructions, each a list of small integers which are
interpreted deterministically: the first chooses a layer among the kinds, the others its parameters; an instruction whose layer does
not apply to the current field type or image is skipped.  All shapes are tracked with formulas of our own."""
import math, warnings
import numpy as np
from hypothesis import strategies as st
from .core import need
from .gen import (SEED, L, PI, spaces, space, gspec, ftype, rep, rep_size, order, irrep_ids, irrep_size, divisors, sub_spec, sub_embed,
                  sgid, el, rng, grid_elements, all_elements, field_lists, weighted)
from .ref import plane, iso, fiber, pixel_move, arr
from .p16 import n_out


class Draw:
    def __init__(self, ints):
        self.v, self.i = ints, 0

    def n(self, k):
        v = self.v[self.i] if self.i < len(self.v) else 0
        self.i += 1
        return v % k

    def pick(self, options):
        return options[self.n(len(options))]


class State:
    """field type, group spec, image size and the list of (plane matrix, element of the first group, element of this group)"""

    def __init__(self, ft, gs, hw, els):
        self.ft, self.gs, self.hw, self.els = ft, gs, tuple(hw), els

    def new(self, ft=None, hw=None):
        return State(ft or self.ft, self.gs, hw or self.hw, self.els)


def sub_list(gs):
    k, n = gs
    if k == "C":
        return divisors(n)
    if k == "D":
        return [[a, o] for o in divisors(n) for a in [None] + list(range(n // o))]
    if k == "SO2":
        return [1, 2, 3, 4, 6, 8]
    return [[None, 1], [0.0, 1], [None, 4], [0.0, 4], [PI / 4, 2], [None, -1], [0.0, -1], [0.3, -1], [0.0, 3]]


def restrict_els(gs, s, els):
    hs = sub_spec(gs, s)
    out = []
    if all_elements(hs) is None:
        for A, e0, e in els:
            if hs[0] == "SO2":
                if e[0] == 0:
                    out.append((A, e0, e[1]))
            else:
                out.append((A, e0, [e[0], e[1] - e[0] * s[0]]))
        return out
    for h in all_elements(hs):
        I = iso(gs, sub_embed(gs, s, h))
        for A, e0, e in els:
            if np.abs(iso(gs, e) - I).max() < 1e-6:
                out.append((A, e0, h))
    return out


def menu(gs, kind, cap):
    """representation specs of at most cap channels"""
    irr = [["irr"] + a for a in irrep_ids(gs)]
    if kind == "irr":
        c = irr
    else:
        c = [["triv"]]
        if order(gs) > 0:
            c += [["reg"]] + [["quo", s] for s in sub_list(gs)]
        if kind == "ind":
            c = [["ind", s, i] for s in sub_list(gs) if s not in (1,) or True for i in irrep_ids(sub_spec(gs, s))] if order(gs) > 0 else (
                [["ind", [None, -1], [q]] for q in range(gs[1] + 1)] if gs[0] == "O2" else irr)
        elif kind != "pw":
            c = c + irr
    c = [r for r in c if rep_size(gs, r) <= cap]
    return c or [["triv"]]


def pick_reps(stt, d, kinds=("any", "pw", "pw", "irr", "ind"), cap=8, total=12, nmax=3):
    kind = d.pick(kinds)
    m = menu(stt.gs, kind, cap)
    rs = [d.pick(m) for _ in range(1 + d.n(nmax))]
    while sum(rep_size(stt.gs, r) for r in rs) > total:
        rs = rs[:-1]
    return rs


def mk(stt, rs):
    n = L()["n"]
    S = stt.ft.gspace
    cache = {}
    return n.FieldType(S, [cache.setdefault(str(r), rep(stt.gs, r, S.fibergroup)) for r in rs])


def scale_weights(m, seed):
    t = L()["torch"]
    g = rng(seed)
    with t.no_grad():
        m.weights.copy_(t.tensor(g.standard_normal(tuple(m.weights.shape)), dtype=m.weights.dtype))
        F, _ = m.expand_parameters()
        k = float(F.norm()) / math.sqrt(max(1, m.out_type.size))
        m.weights.mul_(1.0 / k if k > 1e-6 else 0.0)
        if m.bias is not None:
            m.bias.copy_(t.tensor(0.3 * g.standard_normal(tuple(m.bias.shape)), dtype=m.bias.dtype))


def supp(ft, label):
    return all(label in r.supported_nonlinearities for r in ft)


def induced_ok(ft, label):
    return all(sum(s.startswith(label) for s in r.supported_nonlinearities) == 1 for r in ft)


def no_trivial(ft):
    irr = ft.fibergroup.irreps
    return not any(irr[i].is_trivial() for r in ft for i in r.irreps)


# ---- layers: op(state, draw, options) -> (modules, new state) or None ---------------------------------------------
def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def op_conv(stt, d, o):
    n = L()["n"]
    fo = mk(stt, pick_reps(stt, d, total=o["cap"]))
    if stt.ft.size * fo.size > 256:
        return None
    return conv_to(stt, fo, d, o)


def conv_to(stt, fo, d, o):
    n = L()["n"]
    k = d.pick([3, 1, 3, 5, 2, 4])
    s = d.pick([1, 1, 2, 1, 3])
    dil = d.pick([1, 1, 1, 2])
    p = d.pick([k // 2, 0, 1, k // 2 * dil])
    mode = d.pick(["zeros", "zeros", "circular", "reflect", "replicate"])
    bias = d.n(4) != 3
    h, w = stt.hw
    if any(z + 2 * p < dil * (k - 1) + 1 for z in (h, w)):
        k, p, dil = 1, 0, 1
    if o["sym"] and any((z + 2 * p - dil * (k - 1) - 1) % s for z in (h, w)):
        s = 1
    if mode == "reflect" and min(h, w) <= p or mode == "circular" and min(h, w) < p:
        mode = "zeros"
    if not o["sym"] and d.n(4) == 3 and mode == "zeros":
        p = (p, p + 1)
    hw = [n_out(z, k, s, q, dil, False) for z, q in zip((h, w), p if isinstance(p, tuple) else (p, p))]
    try:
        m = quiet(lambda: n.R2Conv(stt.ft, fo, k, padding=p, stride=s, dilation=dil, padding_mode=mode, bias=bias, initialize=False))
    except ValueError:
        return None
    scale_weights(m, o["seed"])
    return [m], stt.new(fo, hw)


def op_convrelu(stt, d, o):
    """convolution to permutation representations followed by a pointwise nonlinearity"""
    fo = mk(stt, pick_reps(stt, d, kinds=("pw",), total=o["cap"]))
    if stt.ft.size * fo.size > 256:
        return None
    a = conv_to(stt, fo, d, o)
    if a is None:
        return None
    b = op_point(a[1], d, o)
    return (a[0] + b[0], b[1]) if b else a


def op_convgate(stt, d, o):
    n = L()["n"]
    rs = pick_reps(stt, d, kinds=("any", "irr", "pw"), total=max(1, o["cap"] - 3))
    if stt.gs[0] in ("SO2", "O2"):
        rs = [r for r in rs if r[0] in ("irr", "triv")] or [["triv"]]
    fields = [["triv"]] * len(rs) + rs
    kinds = ["gate"] * len(rs) + ["gated"] * len(rs)
    rot = d.n(len(fields))
    fields, kinds = fields[rot:] + fields[:rot], kinds[rot:] + kinds[:rot]
    fo = mk(stt, fields)
    if stt.ft.size * fo.size > 256 or not all("gated" in r.supported_nonlinearities for r, q in zip(fo, kinds) if q == "gated"):
        return None
    a = conv_to(stt, fo, d, o)
    if a is None:
        return None
    m = n.GatedNonLinearity1(fo, gates=kinds, drop_gates=d.n(2) == 0)
    randomise(m, o["seed"])
    return a[0] + [m], a[1].new(m.out_type)


def op_tconv(stt, d, o):
    n = L()["n"]
    fo = mk(stt, pick_reps(stt, d, total=o["cap"]))
    if stt.ft.size * fo.size > 256:
        return None
    k = d.pick([3, 2, 1, 4])
    s = d.pick([1, 2, 1])
    p = d.pick([0, 1, k // 2])
    dil = d.pick([1, 1, 2])
    op = 0 if o["sym"] else d.n(max(s, dil))
    hw = [(z - 1) * s - 2 * p + dil * (k - 1) + 1 + op for z in stt.hw]
    if min(hw) < 1 or max(hw) > o["maxhw"]:
        return None
    try:
        m = quiet(lambda: n.R2ConvTransposed(stt.ft, fo, k, padding=p, output_padding=op, stride=s, dilation=dil, bias=d.n(4) != 3, initialize=False))
    except ValueError:
        return None
    scale_weights(m, o["seed"])
    return [m], stt.new(fo, hw)


def op_diff(stt, d, o):
    n = L()["n"]
    fo = mk(stt, pick_reps(stt, d, cap=4, total=min(6, o["cap"])))
    if stt.ft.size * fo.size > 64:
        return None
    k = d.pick([3, 3, 5])
    s = d.pick([1, 1, 2])
    p = d.pick([k // 2, 0, 1])
    mode = d.pick(["zeros", "replicate", "circular"])
    h, w = stt.hw
    if any(z + 2 * p < k for z in (h, w)) or mode == "circular" and min(h, w) < p:
        return None
    if o["sym"] and any((z + 2 * p - k) % s for z in (h, w)):
        s = 1
    hw = [n_out(z, k, s, p, 1, False) for z in (h, w)]
    try:
        m = quiet(lambda: n.R2Diffop(stt.ft, fo, kernel_size=k, accuracy=2, padding=p, stride=s, padding_mode=mode, bias=d.n(4) != 3, initialize=False))
    except ValueError:
        return None
    scale_weights(m, o["seed"])
    return [m], stt.new(fo, hw)


def randomise(m, seed, s=0.5):
    t = L()["torch"]
    g = rng(seed + 7)
    with t.no_grad():
        for k, p in m.named_parameters():
            if p.requires_grad:
                p.copy_(t.tensor(s * g.standard_normal(tuple(p.shape)), dtype=p.dtype))


def op_point(stt, d, o):
    n = L()["n"]
    if not supp(stt.ft, "pointwise"):
        return None
    f = d.pick(["relu", "elu", "p_tanh", "p_sigmoid", "p_relu", "p_elu", "relu_in", "elu_in"])
    if f.startswith("p_") and not o["export"]:
        m = n.PointwiseNonLinearity(stt.ft, function=f)
    elif f.startswith("elu"):
        m = n.ELU(stt.ft, alpha=d.pick([1.0, 0.5]), inplace=o["inplace"] and f == "elu_in")
    else:
        m = n.ReLU(stt.ft, inplace=o["inplace"] and f == "relu_in")
    return [m], stt


def op_norm(stt, d, o):
    n = L()["n"]
    if not supp(stt.ft, "norm"):
        return None
    f = d.pick(["n_relu", "n_sigmoid", "squash"])
    m = n.NormNonLinearity(stt.ft, function=f, bias=f != "squash" and d.n(3) != 2)
    randomise(m, o["seed"])
    return [m], stt


def op_inorm(stt, d, o):
    n = L()["n"]
    if not induced_ok(stt.ft, "induced_norm"):
        return None
    f = d.pick(["n_relu", "n_sigmoid", "squash"])
    m = n.InducedNormNonLinearity(stt.ft, function=f, bias=f != "squash" and d.n(3) != 2)
    randomise(m, o["seed"])
    return [m], stt


def op_igate(stt, d, o):
    """convolution to induced gates and induced fields of one subgroup, then the induced gated nonlinearity"""
    n = L()["n"]
    gs = stt.gs
    if gs[0] == "SO2":
        return None
    s = [None, -1] if gs[0] == "O2" else d.pick(sub_list(gs))
    ids = irrep_ids(sub_spec(gs, s))
    rs = [["ind", s, d.pick(ids)] for _ in range(1 + d.n(2))]
    z = [0] if sub_spec(gs, s)[0] in ("C", "SO2") else [0, 0]
    fields = [["ind", s, z]] * len(rs) + rs
    kinds = ["gate"] * len(rs) + ["gated"] * len(rs)
    rot = d.n(len(fields))
    fields, kinds = fields[rot:] + fields[:rot], kinds[rot:] + kinds[:rot]
    if sum(rep_size(gs, r) for r in fields) > o["cap"] + 8:
        return None
    fo = mk(stt, fields)
    if stt.ft.size * fo.size > 256:
        return None
    a = conv_to(stt, fo, d, o)
    if a is None:
        return None
    m = n.InducedGatedNonLinearity1(fo, gates=kinds, drop_gates=d.n(2) == 0)
    randomise(m, o["seed"])
    return a[0] + [m], a[1].new(m.out_type)


def op_cat(stt, d, o):
    n = L()["n"]
    if order(stt.gs) < 0 or not supp(stt.ft, "concatenated") or stt.ft.size > o["cap"] // 2:
        return None
    m = n.ConcatenatedNonLinearity(stt.ft, function=d.pick(["c_relu", "c_sigmoid", "c_tanh"]))
    return [m], stt.new(m.out_type)


def op_vf(stt, d, o):
    n = L()["n"]
    if o["cont"] or order(stt.gs) < 2 or not all("vectorfield" in r.supported_nonlinearities and r.name == "regular" for r in stt.ft):
        return None
    m = n.VectorFieldNonLinearity(stt.ft)
    return [m], stt.new(m.out_type)


def op_bn(stt, d, o):
    n = L()["n"]
    opts = ["gnorm"] if not o["export"] else []
    if supp(stt.ft, "pointwise"):
        opts = ["inner"] + opts
    if supp(stt.ft, "norm") and no_trivial(stt.ft) and not o["export"]:
        opts = ["norm"] + opts
    if induced_ok(stt.ft, "induced_norm") and no_trivial(stt.ft) and not o["export"]:
        opts = ["ind"] + opts
    if not opts:
        return None
    k = d.pick(opts)
    cls = {"gnorm": n.GNormBatchNorm, "inner": n.InnerBatchNorm, "norm": n.NormBatchNorm, "ind": n.InducedNormBatchNorm}[k]
    m = cls(stt.ft, eps=d.pick([1e-2, 1e-1]), momentum=d.pick([0.1, 0.5]), affine=d.n(3) != 2)
    t = L()["torch"]
    g = rng(o["seed"] + 3)
    with t.no_grad():
        for q in m.parameters():
            q.copy_(t.tensor(g.uniform(0.5, 1.5, tuple(q.shape)), dtype=q.dtype))
    return [m], stt


def op_drop(stt, d, o):
    n = L()["n"]
    if not o["drop"]:
        return None
    if o["export"] or (supp(stt.ft, "pointwise") and d.n(2)):
        if not supp(stt.ft, "pointwise"):
            return None
        return [n.PointwiseDropout(stt.ft, p=0.5, inplace=o["inplace"] and d.n(2) == 1)], stt
    return [n.FieldDropout(stt.ft, p=0.5, inplace=o["inplace"] and d.n(2) == 1)], stt


def op_pool(stt, d, o):
    n = L()["n"]
    kinds = ["norm" if not o["cont"] else "avg", "avg", "aaavg"] if not o["export"] else []
    if supp(stt.ft, "pointwise"):
        kinds = ["max", "aamax"] + kinds
    elif not supp(stt.ft, "norm"):
        kinds = [k for k in kinds if k != "norm"]
    if not kinds:
        return None
    kind = d.pick(kinds)
    k, s, p = d.pick([2, 3, 1, 4]), d.pick([2, 1, 3]), d.pick([0, 1])
    p = min(p, k // 2)
    ceil = d.n(3) == 2
    dil = d.pick([1, 1, 2]) if kind in ("max", "norm") else 1
    sg = d.pick([0.6, 0.3, 1.0])
    h, w = stt.hw
    span = lambda z: z + 2 * p - dil * (k - 1) - 1
    if kind in ("max", "norm", "avg"):
        if any(span(z) < 0 for z in (h, w)):
            return None
        if o["sym"] and any(span(z) % s for z in (h, w)):
            s = 1
        hw = [n_out(z, k, s, p, dil, ceil) for z in (h, w)]
        if dil > 1 and p:
            return None
        kw = dict(kernel_size=k, stride=s, padding=p, ceil_mode=ceil)
        if kind != "avg":
            kw["dilation"] = dil
        m = {"max": n.PointwiseMaxPool, "norm": n.NormMaxPool, "avg": n.PointwiseAvgPool}[kind](stt.ft, **kw)
    elif kind == "aamax":
        if any(span(z) < 0 for z in (h, w)):
            return None
        ws = [z + 2 * p - (k - 1) + 2 * p for z in (h, w)]
        if o["sym"] and any((z - 1) % s for z in ws):
            s = 1
        hw = [(z - 1) // s + 1 for z in ws]
        m = n.PointwiseMaxPoolAntialiased(stt.ft, k, stride=s, padding=p, sigma=sg)
    else:
        if o["sym"] and any((z - 1) % s for z in (h, w)):
            s = 1
        hw = [(z - 1) // s + 1 for z in (h, w)]
        m = n.PointwiseAvgPoolAntialiased(stt.ft, sg, s)
    if max(hw) > o["maxhw"]:
        return None
    return [m], stt.new(hw=hw)


def op_adaptive(stt, d, o):
    n = L()["n"]
    if not supp(stt.ft, "pointwise"):
        return None
    q = d.pick([1, 2, 3])
    q = q if o["sym"] or d.n(2) else (q, 1 + d.n(3))
    m = (n.PointwiseAdaptiveAvgPool if d.n(2) else n.PointwiseAdaptiveMaxPool)(stt.ft, q)
    return [m], stt.new(hw=q if isinstance(q, tuple) else (q, q))


def op_up(stt, d, o):
    n = L()["n"]
    mode = "bilinear" if o["sym"] or d.n(3) else "nearest"
    al = d.n(2) == 1
    if d.n(2) and not al:
        q = d.pick([2, 4, 5, 7])
        if not o["sym"] and d.n(2):
            q = (q, d.pick([3, 6]))
        m = n.R2Upsampling(stt.ft, size=q, mode=mode, align_corners=al)
        hw = q if isinstance(q, tuple) else (q, q)
    else:
        f = d.pick([2, 3, 1])
        hw = [z * f for z in stt.hw]
        if max(hw) > o["maxhw"]:
            return None
        m = n.R2Upsampling(stt.ft, scale_factor=f, mode=mode, align_corners=al)
    return [m], stt.new(hw=hw)


def op_mask(stt, d, o):
    n = L()["n"]
    if stt.hw[0] != stt.hw[1] or o["export"]:
        return None
    return [n.MaskModule(stt.ft, stt.hw[0], margin=d.pick([0.0, 2.0, 20.0]))], stt


def op_inv(stt, d, o):
    n = L()["n"]
    kinds = []
    if supp(stt.ft, "pointwise"):
        kinds.append(n.GroupPooling)
    if o["export"]:
        if len(set(r.size for r in stt.ft)) > 1:
            kinds = []
    else:
        if supp(stt.ft, "norm"):
            kinds.append(n.NormPool)
        if induced_ok(stt.ft, "induced_norm"):
            kinds.append(n.InducedNormPool)
    if not kinds:
        return None
    m = d.pick(kinds)(stt.ft)
    return [m], stt.new(m.out_type)


def op_restrict(stt, d, o):
    n = L()["n"]
    if stt.gs == ["C", 1]:
        return None
    s = d.pick(sub_list(stt.gs))
    m = n.RestrictionModule(stt.ft, sgid(s))
    new = State(m.out_type, sub_spec(stt.gs, s), stt.hw, restrict_els(stt.gs, s, stt.els))
    if d.n(2) and not o["export"]:
        m2 = n.DisentangleModule(m.out_type)
        return [m, m2], new.new(m2.out_type)
    return [m], new


def op_dis(stt, d, o):
    n = L()["n"]
    if o["export"]:
        return None
    m = n.DisentangleModule(stt.ft)
    return [m], stt.new(m.out_type)


def perm_of(d, k):
    p = list(range(k))
    for i in range(k - 1, 0, -1):
        j = d.n(i + 1)
        p[i], p[j] = p[j], p[i]
    return p


def op_shuffle(stt, d, o):
    n = L()["n"]
    if o["export"]:
        return None
    m = n.ReshuffleModule(stt.ft, perm_of(d, len(stt.ft)))
    return [m], stt.new(m.out_type)


def op_id(stt, d, o):
    return [L()["n"].IdentityModule(stt.ft)], stt


def op_multi(stt, d, o):
    """branches by label; each branch keeps the image size"""
    n = L()["n"]
    if o["export"]:
        return None
    labels = [d.pick(["a", "b", "z"]) for _ in stt.ft]
    lv = d.n(4)
    types = n.BranchingModule(stt.ft, list(labels), reshuffle=lv).out_type
    mods = []
    for l in sorted(set(labels), reverse=d.n(2) == 1):
        s2 = stt.new(types[l])
        r = d.pick([op_id, op_point, op_norm, op_inv, op_bn])(s2, d, o) or op_id(s2, d, o)
        mods.append((r[0][0], l))
    m = n.MultipleModule(stt.ft, labels, mods, reshuffle=lv)
    return [m], stt.new(m.out_type)


def op_nest(stt, d, o):
    n = L()["n"]
    r = op_convrelu(stt, d, o) if d.n(2) else op_conv(stt, d, o)
    if r is None:
        return None
    return [n.SequentialModule(*r[0])], r[1]


OPS = [op_conv, op_convrelu, op_point, op_bn, op_pool, op_norm, op_inv, op_convgate, op_restrict, op_tconv, op_diff, op_up, op_adaptive,
       op_inorm, op_igate, op_cat, op_vf, op_drop, op_mask, op_dis, op_shuffle, op_id, op_multi, op_nest]
OPT = {"sym": True, "export": False, "cont": False, "drop": True, "inplace": True, "cap": 12, "maxhw": 24, "seed": 0}


class Net:
    pass


def build(spec, ops=None, **options):
    """-> Net with mods (a list), states (one more), or None when no layer applies"""
    o = dict(OPT, **options)
    sp = spec["sp"]
    gs = gspec(sp)
    ft = ftype(sp, spec["in"])
    els = [(plane(sp, e), e, e) for e in grid_elements(sp)]
    stt = State(ft, gs, spec["hw"], els)
    net = Net()
    net.mods, net.states, net.kinds = [], [stt], []
    for i, ins in enumerate(spec["prog"]):
        op = OPS[ins[0] % len(OPS)]
        o["seed"] = spec["seed"] + 31 * i
        r = op(stt, Draw(ins[1:]), o)
        if r is None:
            op = op_convrelu if ins[1] % 2 else op_conv
            if op not in (ops or OPS):
                continue
            r = op(stt, Draw(ins[1:]), o)
        if r is None:
            continue
        net.mods += r[0]
        net.kinds.append(op.__name__)
        stt = r[1]
        for m in r[0][:-1]:
            net.states.append(None)
        net.states.append(stt)
    if not net.mods:
        return None
    n = L()["n"]
    net.seq = n.SequentialModule(*net.mods)
    net.first, net.last = net.states[0], net.states[-1]
    return net


def hw_s(sym):
    return st.integers(3, 9).map(lambda h: [h, h]) if sym else st.tuples(st.integers(2, 9), st.integers(2, 9)).map(list)


def specs(sym=True, maxlen=6, minlen=1, first=None, ops=None, sps=None):
    ix = [OPS.index(q) for q in (ops or OPS)]
    tail = [st.integers(0, 11)] * 12

    def ins(choice):
        return st.tuples(choice, *tail).map(list)
    # convolutions and what usually follows them are more frequent
    common = [i for i in ix if i < 9]
    choice = st.one_of(st.sampled_from(common or ix), st.sampled_from(ix))

    def f(sp):
        return st.fixed_dictionaries({
            "sp": st.just(sp), "in": field_lists(gspec(sp), 3, 4, 6, depth=1), "hw": hw_s(sym),
            "prog": st.integers(minlen, maxlen).flatmap(lambda q: st.lists(ins(choice), min_size=minlen, max_size=q)), "seed": SEED, "x": SEED})
    return (sps or weighted((3, spaces(Ns=[4, 2, 8, 3, 6], grid_axes=True, maxm=3)), (1, spaces(maxN=6, maxm=3)))).flatmap(f)


def image(spec, net, B=2, k=0):
    h, w = net.first.hw
    return rng(spec["x"] + k).standard_normal((B, net.first.ft.size, h, w)).astype(np.float32)


def move(stt_reps, gs, e, A, x):
    return pixel_move(fiber(stt_reps, el(gs, e), np.asarray(x, np.float64)), A)
