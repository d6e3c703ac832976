"""P13: exported networks compute the same function as the original."""
import copy, io, warnings
import numpy as np
from hypothesis import strategies as st
from .core import Facet, Violation, need
from .gen import L, SEED, gt, gspec, ftype, rng, spaces, weighted, rep_size, field_lists
from .ref import same, arr
from .layers import conv_specs, diff_specs, build, in_size
from .p12 import guarded, state_bytes
from .p14 import accepted, values as vals14
from .p16 import mixed, tup, two, types
from . import nets

RULE = "non-trivial: the exported module was compared on inputs whose outputs are not constant"


def pure(e, what):
    E = L()["n"].EquivariantModule
    need(isinstance(e, L()["torch"].nn.Module), "%s: export gave %r" % (what, type(e)))
    for q in e.modules():
        need(not isinstance(q, E), "%s: the exported module contains %s" % (what, type(q).__name__))


def run(m, x, plain):
    t = L()["torch"]
    with t.no_grad():
        if plain:
            z = t.tensor(x)
            return m(z).numpy().astype(np.float64)
        return arr(m(gt(x, m.in_type)))


def close(a, b, what, x, noise=0.0):
    need(a.shape == b.shape, lambda: "%s: shape %s, the original gives %s" % (what, a.shape, b.shape))
    same(a, b, what, 1.0, scale=1e-5 * max(1e-3, np.abs(b).max(initial=0)) + 20 * noise)


def mutate(m, seed, buffers=False):
    """overwrite every floating point parameter (and buffer) in place"""
    t = L()["torch"]
    g = rng(seed)
    with t.no_grad():
        for p in list(m.parameters()) + (list(m.buffers()) if buffers else []):
            if p.is_floating_point() and p.numel():
                p.copy_(t.tensor(g.uniform(0.5, 2.0, tuple(p.shape)), dtype=p.dtype))


def noise_of(m, x, y):
    z = (x * (1 + 1e-6 * rng(3).standard_normal(x.shape))).astype(np.float32)
    return np.abs(run(m, z, False) - y).max(initial=0)


def verdict(m, xs, c, what):
    """m: module after its history (any mode), xs: inputs"""
    t = L()["torch"]
    mode = m.training
    params = {k: p.detach().numpy().copy() for k, p in m.named_parameters()}
    e = guarded("export of %s" % what, m.export)
    pure(e, what)
    for k, p in m.named_parameters():
        need(np.array_equal(p.detach().numpy(), params[k], equal_nan=True), "%s: export changed parameter %s" % (what, k))
    # the original in evaluation mode, from an untouched copy and itself
    m.eval()
    nt = False
    ys, ns = [], []
    for x in xs:
        y = run(m, x, False)
        if not np.isfinite(y).all() or np.abs(y).max(initial=0) > 1e6:
            return False
        n = noise_of(m, x, y)
        if n > 1e-3 * max(1e-3, np.abs(y).max(initial=0)):
            return False
        ys.append(y)
        ns.append(n)
        xx = x.copy()
        got = run(e, xx, True)
        close(got, y, what, x, n)
        nt = nt or (y.size > 1 and np.ptp(y) > 1e-6)
    x, y, n = xs[0], ys[0], ns[0]
    # exporting again gives the same; export in one mode or the other makes no difference
    if c["again"]:
        m.train()
        e2 = guarded("export of %s" % what, m.export)
        close(run(e2, x, True), y, "%s: a second export from training mode" % what, x, n)
        m.eval()
        close(run(m, x, False), y, "%s: the original after exporting it twice" % what, x, n)
    # the exported module alone carries its state
    if c["state"]:
        e3 = guarded("export of %s" % what, m.export)
        sd = copy.deepcopy(e.state_dict())
        mutate(e3, 5, True)
        guarded("load_state_dict into the export of %s" % what, lambda: e3.load_state_dict(sd))
        close(run(e3, x, True), y, "%s: exported module restored from a state dict" % what, x, n)
        e4 = guarded("pickling the export of %s" % what, lambda: unpickle(e3))
        close(run(e4, x, True), y, "%s: exported module after pickling" % what, x, n)
    # independence
    if c["indep"] == 0:
        m.train()
        mutate(m, 7)
        m.eval()
        run(m, x, False)
        m.train()
        close(run(e, x, True), y, "%s: exported module after the original changed" % what, x, n)
    elif c["indep"] == 1:
        mutate(e, 9, True)
        for k, p in m.named_parameters():
            need(np.array_equal(p.detach().numpy(), params[k], equal_nan=True), "%s: changing the exported module changed parameter %s" % (what, k))
        close(run(m, x, False), y, "%s: the original after the exported module changed" % what, x, n)
        m.train(); m.eval()
        close(run(m, x, False), y, "%s: the original after the exported module changed and a mode switch" % what, x, n)
    elif c["indep"] == 2:
        m.train()
        close(run(e, x, True), y, "%s: exported module after the original returned to training mode" % what, x, n)
        m.eval()
        close(run(m, x, False), y, "%s: the original after the export" % what, x, n)
    return nt


def unpickle(e):
    import pickle
    return pickle.loads(pickle.dumps(e))


COMMON = {"again": st.booleans(), "state": st.booleans(), "indep": st.integers(0, 2), "mode": st.sampled_from(["train", "eval", "none", "both"]),
          "steps": st.integers(0, 2), "x": SEED, "B": st.integers(1, 3)}


def history(m, x, c):
    """a little training and mode switching before the export"""
    t = L()["torch"]
    if c["mode"] in ("train", "both") or c["steps"]:
        m.train()
    if c["mode"] == "both":
        m.eval()
        m.train()
    for i in range(c["steps"]):
        z = rng(c["x"] + 50 + i).standard_normal((3,) + x.shape[1:]).astype(np.float32) * 1.5 + 0.3
        opt = [p for p in m.parameters() if p.requires_grad]
        y = m(gt(z, m.in_type)).tensor
        if opt and y.requires_grad:
            for p in opt:
                p.grad = None
            loss = (y * t.tensor(rng(c["x"] + 90 + i).standard_normal(tuple(y.shape)), dtype=y.dtype)).mean()
            guarded("backward", loss.backward)
            with t.no_grad():
                for p in opt:
                    if p.grad is not None and t.isfinite(p.grad).all():
                        p -= 0.1 * p.grad.clamp(-1, 1)
    if c["mode"] == "eval":
        m.eval()


# ---- convolutions ------------------------------------------------------------------------------------------------
def s_conv():
    def f(sp):
        tc = conv_specs(sp, True, maxk=4, size=4, total=5).flatmap(lambda d: st.integers(0, max(d["s"], d["d"]) - 1).map(lambda o: dict(d, op=o)))
        return st.one_of(conv_specs(sp, maxk=5, size=4, total=6), tc, diff_specs(sp, size=4, total=4))
    return spaces(maxN=5, maxm=2).flatmap(f).flatmap(lambda l: st.fixed_dictionaries(
        dict(COMMON, layer=st.just(l), n=st.integers(0, 3), hw=st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list))))


def c_conv(c):
    spec = c["layer"]
    m = build(spec)
    if m is None:
        return False
    k = m.kernel_size
    if spec["kind"] == "tconv":
        h, w = c["n"] + 1 + c["hw"][0], c["n"] + 1 + c["hw"][1]
        if (min(h, w) - 1) * spec["s"] - 2 * spec["p"] + spec["d"] * (k - 1) + 1 < 1:
            return False
    else:
        h, w = [a + b for a, b in zip(in_size(spec, c["n"], k), c["hw"])]
    if max(h, w) > 26:
        return False
    x = rng(c["x"]).standard_normal((c["B"], m.in_type.size, h, w)).astype(np.float32)
    history(m, x, c)
    return verdict(m, [x], c, type(m).__name__)


# ---- all other exportable modules --------------------------------------------------------------------------------
KINDS = ["relu", "elu", "drop", "max", "aamax", "aavg", "amax", "gpool", "up", "inner", "inner", "id", "restrict"]


def s_module():
    def f(t):
        sp, kind = t
        gs = gspec(sp)
        rs = types(gs, "any" if kind in ("id", "up", "restrict") else "pointwise")
        if kind == "gpool":
            rs = accepted(gs, "pointwise", 6).flatmap(lambda r: st.lists(st.just(r), min_size=1, max_size=3)).filter(lambda q: sum(rep_size(gs, r) for r in q) <= 16)
        if kind == "inner":
            rs = rs.map(lambda q: sorted(q, key=lambda r: rep_size(gs, r)))
        return st.fixed_dictionaries(dict(
            COMMON, sp=st.just(sp), kind=st.just(kind), rs=rs, k=mixed(st.integers(1, 4)), s=st.one_of(st.none(), mixed(st.integers(1, 3))),
            p=mixed(st.integers(0, 2)), d=mixed(st.sampled_from([1, 1, 2])), ceil=st.booleans(), sigma=st.sampled_from([0.6, 0.4, 0.3, 1.0, 0.1]),
            o=mixed(st.integers(1, 6)), scale=st.sampled_from([None, 1, 2, 3]), align=st.booleans(), near=st.booleans(),
            alpha=st.sampled_from([1.0, 0.3, 2.0]), inplace=st.booleans(), prob=st.sampled_from([0.5, 0.0, 0.9]),
            eps=st.sampled_from([1e-5, 1e-2, 0.5]), mom=st.sampled_from([0.1, 0.9, 0.5]), affine=st.booleans(),
            hw=st.tuples(st.integers(1, 9), st.integers(1, 9)).map(list), draw=st.integers(0, 40)))
    return st.tuples(spaces(maxN=6, maxm=2), st.sampled_from(KINDS)).flatmap(f)


def make(c, ft, h, w):
    """-> module or None where the configuration does not apply to the image"""
    n = L()["n"]
    kind = c["kind"]
    if kind == "relu":
        return n.ReLU(ft, inplace=c["inplace"])
    if kind == "elu":
        return n.ELU(ft, alpha=c["alpha"], inplace=c["inplace"])
    if kind == "drop":
        return n.PointwiseDropout(ft, p=c["prob"], inplace=c["inplace"])
    if kind in ("max", "aamax"):
        k, d = two(c["k"]), two(c["d"]) if kind == "max" else (1, 1)
        p = tuple(min(a, b // 2) for a, b in zip(two(c["p"]), k))
        if any(z + 2 * a < e * (b - 1) + 1 for z, a, b, e in zip((h, w), p, k, d)) or any(a and b > 1 for a, b in zip(p, d)):
            return None
        p = p[0] if p[0] == p[1] else p
        if kind == "max":
            return n.PointwiseMaxPool(ft, tup(c["k"]), tup(c["s"]), p, tup(c["d"]), ceil_mode=c["ceil"])
        return n.PointwiseMaxPoolAntialiased(ft, tup(c["k"]), tup(c["s"]), p, ceil_mode=c["ceil"], sigma=c["sigma"])
    if kind == "aavg":
        return n.PointwiseAdaptiveAvgPool(ft, tup(c["o"]))
    if kind == "amax":
        return n.PointwiseAdaptiveMaxPool(ft, tup(c["o"]))
    if kind == "gpool":
        return n.GroupPooling(ft)
    if kind == "up":
        kw = dict(mode="nearest") if c["near"] else dict(align_corners=c["align"])
        if c["scale"] is None:
            return n.R2Upsampling(ft, size=tup(c["o"]), **kw)
        return n.R2Upsampling(ft, scale_factor=c["scale"], **kw)
    if kind == "inner":
        m = n.InnerBatchNorm(ft, eps=c["eps"], momentum=c["mom"], affine=c["affine"])
        mutate(m, c["x"] + 1)
        return m
    if kind == "id":
        return n.IdentityModule(ft)
    if kind == "restrict":
        subs = nets.sub_list(gspec(c["sp"]))
        if gspec(c["sp"]) == ["C", 1]:
            return None
        from .gen import sgid
        return n.RestrictionModule(ft, sgid(subs[c["draw"] % len(subs)]))
    raise KeyError(kind)


def c_module(c):
    ft = ftype(c["sp"], c["rs"])
    h, w = c["hw"]
    m = make(c, ft, h, w)
    if m is None:
        return False
    x = vals14(c["x"], (c["B"], ft.size, h, w))
    if c["steps"] and (3 * h * w > 1):
        history(m, x.copy(), c)
    elif c["mode"] == "eval":
        m.eval()
    what = "%s" % type(m).__name__
    return verdict(m, [x], c, what)


# ---- networks ----------------------------------------------------------------------------------------------------
EXPORTABLE = [nets.op_conv, nets.op_convrelu, nets.op_point, nets.op_bn, nets.op_pool, nets.op_inv, nets.op_restrict, nets.op_tconv,
              nets.op_diff, nets.op_up, nets.op_adaptive, nets.op_drop, nets.op_id, nets.op_nest]


def s_net():
    return nets.specs(sym=False, maxlen=6, minlen=1, ops=EXPORTABLE).flatmap(lambda s: st.fixed_dictionaries(
        dict(COMMON, net=st.just(s), wrap=st.integers(0, 2))))


def c_net(c):
    n = L()["n"]
    spec = c["net"]
    net = nets.build(spec, ops=EXPORTABLE, sym=False, export=True, drop=True, inplace=c["steps"] == 0)
    if net is None:
        return False
    seq = net.seq
    # inner batch normalisation of interleaved sizes has no conventional counterpart: documented as unsupported
    for m in seq.modules():
        if isinstance(m, n.InnerBatchNorm):
            sz = [r.size for r in m.in_type]
            groups = [a for i, a in enumerate(sz) if i == 0 or sz[i - 1] != a]
            if len(groups) != len(set(groups)):
                return False
    if c["wrap"] == 1:
        seq = n.SequentialModule(seq)
    elif c["wrap"] == 2 and len(net.mods) > 1:
        seq = n.SequentialModule(net.mods[0], n.SequentialModule(*net.mods[1:]))
    x = nets.image(spec, net, c["B"])
    history(seq, x, c)
    x2 = (rng(c["x"] + 3).standard_normal((1,) + x.shape[1:]) * 3).astype(np.float32)
    return verdict(seq, [x, x2], c, "network %s" % net.kinds)


# ---- lists of modules --------------------------------------------------------------------------------------------
def s_list():
    return nets.specs(sym=False, maxlen=4, minlen=2, ops=EXPORTABLE).flatmap(lambda s: st.fixed_dictionaries(
        dict(COMMON, net=st.just(s))))


def c_list(c):
    n, t = L()["n"], L()["torch"]
    spec = c["net"]
    net = nets.build(spec, ops=EXPORTABLE, sym=False, export=True, drop=False, inplace=False)
    if net is None or any(isinstance(m, n.InnerBatchNorm) and len(set(r.size for r in m.in_type)) > 1 for q in net.mods for m in q.modules()):
        return False
    ml = n.ModuleList(net.mods)
    if c["mode"] == "eval":
        ml.eval()
    e = guarded("export of a ModuleList", ml.export)
    need(type(e) is t.nn.ModuleList and len(e) == len(ml), "exported list: %s of %d" % (type(e).__name__, len(e)))
    pure(e, "list")
    z = rng(c["x"]).standard_normal((c["B"], net.first.ft.size) + net.first.hw).astype(np.float32)
    nt = False
    for i, (m, q) in enumerate(zip(ml, e)):
        m.eval()
        y = run(m, z, False)
        if not np.isfinite(y).all():
            return False
        close(run(q, z, True), y, "element %d (%s) of an exported list" % (i, type(m).__name__), z, noise_of(m, z, y))
        nt = nt or (y.size > 1 and np.ptp(y) > 1e-6)
        z = y.astype(np.float32)
    return nt


FACETS = [Facet("convolution", s_conv, c_conv, 2500, rule=RULE), Facet("module", s_module, c_module, 5000, rule=RULE),
          Facet("network", s_net, c_net, 1500, rule=RULE), Facet("list", s_list, c_list, 250, rule=RULE)]
