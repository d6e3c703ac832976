"""P20: networks composed of library layers are equivariant end to end."""
import numpy as np
from .core import Facet, need
from .gen import L, gt, gspec, rng
from .ref import same, arr
from . import nets
from .nets import OPS, op_vf, op_drop
from hypothesis import strategies as st

RULE = "non-trivial: at least three layers, one of them with weights, and an element that moves both the input and the output (or leaves the invariant output alone)"


def train_steps(net, spec, k):
    """k steps of gradient descent on a random regression target, in training mode"""
    t = L()["torch"]
    seq = net.seq.train()
    ps = [p for p in seq.parameters() if p.requires_grad]
    for i in range(k):
        x = gt(nets.image(spec, net, 3, 100 + i), net.first.ft)
        y = seq(x).tensor
        loss = ((y - t.tensor(rng(spec["x"] + i).standard_normal(tuple(y.shape)), dtype=y.dtype)) ** 2).mean()
        if not ps or not loss.requires_grad:
            continue
        gr = t.autograd.grad(loss, ps, allow_unused=True)
        with t.no_grad():
            for p, g in zip(ps, gr):
                if g is not None:
                    p.sub_(0.05 * g.clamp(-1, 1))


def c_net(c):
    t = L()["torch"]
    spec = c["net"]
    net = nets.build(spec, sym=True, cont=True, drop=True, inplace=not c["steps"])
    if net is None:
        return False
    train_steps(net, spec, c["steps"])
    if c["mode"] == "eval":
        net.seq.eval()
    else:
        net.seq.train()
        for m in net.seq.modules():
            if type(m).__name__ in ("FieldDropout", "PointwiseDropout"):
                m.eval()
    seq = net.seq
    if c["mode"] == "train":
        # statistics of the batch: every evaluation below sees a group of transformed images as one batch
        import copy
        run = lambda z: arr(copy.deepcopy(seq)(gt(z, net.first.ft)))
    else:
        run = lambda z: arr(seq(gt(z, net.first.ft)))
    x = nets.image(spec, net).astype(np.float64)
    with t.no_grad():
        y = run(x)
        need(y.shape[1] == net.last.ft.size == seq.out_type.size, "channels of the output")
        if not np.isfinite(y).all():
            return False
        sc = max(1e-3, float(np.abs(y).max()))
        # how much the network amplifies rounding errors
        noise = max(float(np.abs(run(x * (1 + 1e-5 * rng(7 + j).standard_normal(x.shape))) - y).max()) for j in range(2))
        if noise > 2e-3 * sc:
            return False
        tol = 3e-4 * sc + 10 * noise
        nt = False
        for A, e0, e in net.last.els:
            gx = nets.move(net.first.ft.representations, net.first.gs, e0, A, x)
            gy = nets.move(seq.out_type.representations, net.last.gs, e, A, y)
            same(run(gx), gy, "network %s: equivariance under %r" % (net.kinds, e0), 1.0, scale=tol)
            nt = nt or np.abs(gx - x).max() > 1e-3
    return nt and len(net.mods) >= 3 and sum(p.numel() for p in seq.parameters()) > 0


def s_net():
    ops = [q for q in OPS if q is not op_vf]
    return nets.specs(sym=True, maxlen=7, minlen=3, ops=ops).flatmap(lambda s: st.fixed_dictionaries(
        {"net": st.just(s), "steps": st.sampled_from([0, 0, 1, 2]), "mode": st.sampled_from(["eval", "train"])}))


# ---- classifiers: networks ending in invariant features -----------------------------------------------------------
def c_inv(c):
    n, t = L()["n"], L()["torch"]
    spec = c["net"]
    net = nets.build(spec, sym=True, cont=True, drop=False, inplace=not c["steps"])
    if net is None or not net.last.els:
        return False
    ft = net.last.ft
    if nets.supp(ft, "pointwise"):
        tail = n.GroupPooling(ft)
    elif nets.supp(ft, "norm"):
        tail = n.NormPool(ft)
    else:
        try:
            tail = nets.quiet(lambda: n.R2Conv(ft, n.FieldType(ft.gspace, [ft.gspace.trivial_repr] * 2), 3, padding=1, initialize=False))
        except ValueError:
            return False  # no admissible kernel
        nets.scale_weights(tail, spec["seed"])
    pool = n.PointwiseAdaptiveAvgPool(tail.out_type, 1) if c["avg"] else n.PointwiseAdaptiveMaxPool(tail.out_type, 1)
    seq = n.SequentialModule(net.seq, tail, pool)
    train_steps(net, spec, c["steps"])
    seq.eval()
    run = lambda z: arr(seq(gt(z, net.first.ft)))[:, :, 0, 0]
    x = nets.image(spec, net).astype(np.float64)
    with t.no_grad():
        y = run(x)
        if not np.isfinite(y).all():
            return False
        sc = max(1e-3, float(np.abs(y).max()))
        noise = max(float(np.abs(run(x * (1 + 1e-5 * rng(7 + j).standard_normal(x.shape))) - y).max()) for j in range(2))
        if noise > 2e-3 * sc:
            return False
        nt = False
        for A, e0, e in net.last.els:
            gx = nets.move(net.first.ft.representations, net.first.gs, e0, A, x)
            same(run(gx), y, "features of %s: invariance under %r" % (net.kinds, e0), 1.0, scale=3e-4 * sc + 10 * noise)
            nt = nt or np.abs(gx - x).max() > 1e-3
    return nt and np.abs(y[0] - y[1]).max() > 1e-6


def s_inv():
    ops = [q for q in OPS if q not in (op_vf, op_drop)]
    return nets.specs(sym=True, maxlen=5, minlen=2, ops=ops).flatmap(lambda s: st.fixed_dictionaries(
        {"net": st.just(s), "steps": st.sampled_from([0, 1]), "avg": st.booleans()}))


FACETS = [Facet("network", s_net, c_net, 2500, rule=RULE),
          Facet("features", s_inv, c_inv, 900, rule="non-trivial: the features differ between images and an element moves the input")]
