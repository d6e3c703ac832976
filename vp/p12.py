"""P12: train/eval switches, saving and loading never change what a network computes."""
import copy, io
import numpy as np
from hypothesis import strategies as st
from .core import Facet, Violation, need
from .gen import L, SEED, gt, gspec, rng, spaces, weighted, tensor
from .ref import same, arr
from .layers import conv_specs, diff_specs, build, set_params, ref_conv, ref_tconv, in_size
from . import nets
from .nets import OPS, op_vf

RULE = "non-trivial: the history evaluates the layer at least once in evaluation mode after its parameters changed in training mode"
PART = ("R2Conv", "R2ConvTransposed", "R2Diffop")


def guarded(what, f):
    """torch raises from its own frames when state is inconsistent"""
    try:
        return f()
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]), "raise:" + what.split(" ")[0])


# ---- one layer against an independent convolution -----------------------------------------------------------------
def fresh(c, params):
    """a layer that has never been switched, holding the given parameters"""
    t = L()["torch"]
    m = build(c)
    with t.no_grad():
        for k, p in m.named_parameters():
            p.copy_(t.tensor(params[k]))
    return m


def params_of(m):
    return {k: p.detach().numpy().copy() for k, p in m.named_parameters()}


def expected(c, params, x):
    m = fresh(c, params)
    F, b = m.expand_parameters()
    F = F.detach().numpy().astype(np.float64)
    b = None if b is None else b.detach().numpy().astype(np.float64)
    if c["kind"] == "tconv":
        return ref_tconv(x, F, b, c["p"], c["s"], c["d"], c["op"], c["groups"])
    return ref_conv(x, F, b, c["p"], c["s"], c["d"], c["mode"], c["groups"])


def forward(m, x):
    t = L()["torch"]
    with t.no_grad():
        return arr(m(gt(x, m.in_type)))


def state_bytes(m):
    return {k: v.detach().numpy().copy() for k, v in m.state_dict().items()}


def c_layer(c):
    t = L()["torch"]
    spec = c["layer"]
    m = build(spec)
    if m is None:
        return False
    k = m.kernel_size
    h, w = in_size(dict(spec, mode=spec.get("mode", "zeros")), c["n"], k) if spec["kind"] != "tconv" else (c["n"] + 2, c["n"] + 3)
    if max(h, w) > 24:
        return False
    if spec["kind"] == "tconv" and (min(h, w) - 1) * spec["s"] - 2 * spec["p"] + spec["d"] * (k - 1) + 1 < 1:
        return False
    x = rng(c["x"]).standard_normal((2, m.in_type.size, h, w)).astype(np.float32)
    opt = t.optim.SGD(m.parameters(), lr=0.1)
    par = params_of(m)
    saved = None
    witnesses = []
    nt, dirty, never = False, False, True

    def agree(q, p, what):
        y = forward(q, x)
        e = expected(spec, p, x)
        same(y, e, what, 1e-4, scale=max(1.0, np.abs(e).max(), sum(np.abs(v).sum() for v in p.values())))

    for i, op in enumerate(c["ops"]):
        o = op[0]
        never = never and o in ("copy", "save", "load", "into")
        if o == "train":
            need(m.train() is m, "train() returns the module")
        elif o == "eval":
            m.eval()
        elif o == "switch":
            for _ in range(op[1] % 3 + 1):
                m.eval(); m.train(); m.train(); m.eval()
        elif o == "edit":
            m.train()
            g = rng(op[1])
            with t.no_grad():
                for p in m.parameters():
                    p.copy_(t.tensor(g.standard_normal(tuple(p.shape)), dtype=p.dtype))
            par = params_of(m)
            dirty = True
        elif o == "inplace":
            # scaling a parameter in place, through .data
            m.train()
            m.weights.data.mul_(op[1] % 7 - 3.0)
            par = params_of(m)
            dirty = True
        elif o == "step":
            m.train()
            opt.zero_grad()
            y = m(gt(x, m.in_type)).tensor
            v = t.tensor(rng(op[1]).standard_normal(tuple(y.shape)), dtype=y.dtype)
            guarded("backward", lambda: (y * v).sum().backward())
            # the layer is affine in its parameters: the gradient is known exactly
            f = fresh(spec, par)
            y2 = f(gt(x, f.in_type)).tensor
            (y2 * v).sum().backward()
            grads = {n: p.grad.detach().numpy().copy() for n, p in m.named_parameters()}
            for (n, p) in f.named_parameters():
                same(grads[n], p.grad.numpy(), "gradient of %s after %r" % (n, c["ops"][:i]), 1e-4)
            # along one direction, by evaluating the layer itself
            d = {n: rng(op[1] + 1).standard_normal(p.shape).astype(np.float32) for n, p in par.items()}
            e1 = expected(spec, {n: par[n] + d[n] for n in par}, x) - expected(spec, par, x)
            lhs = float((e1 * v.numpy().astype(np.float64)).sum())
            rhs = float(sum((grads[n].astype(np.float64) * d[n]).sum() for n in par))
            sc = float((np.abs(e1) * np.abs(v.numpy())).sum()) + sum(float(np.abs(grads[n] * d[n]).sum()) for n in par) + 0.1
            need(abs(lhs - rhs) <= 1e-4 * sc, "directional derivative: %g instead of %g" % (rhs, lhs))
            opt.step()
            new = params_of(m)
            for n in par:
                same(new[n], par[n] - 0.1 * grads[n], "parameter %s after an optimiser step following %r" % (n, c["ops"][:i]), 1e-4,
                     scale=max(1.0, np.abs(new[n]).max()))
            par = new
            dirty = True
        elif o == "copy":
            q = guarded("deepcopy", lambda: copy.deepcopy(m))
            need(q.training == m.training, "deepcopy keeps the mode")
            witnesses.append((m, dict(par)))
            m = q
            opt = t.optim.SGD(m.parameters(), lr=0.1)
        elif o == "save":
            buf = io.BytesIO()
            t.save(m.state_dict(), buf)
            saved = (buf.getvalue(), m.training, dict(par), never)
        elif o == "load" or o == "into":
            if saved is None:
                continue
            # a layer that was never switched keeps zero filters: its state fits layers that were never switched either
            data, mode, p0, first = saved
            if first and o == "load" and not never:
                continue
            sd = t.load(io.BytesIO(data))
            if o == "into":  # into another instance
                witnesses.append((m, dict(par)))
                m = build(spec)
                set_params(m, op[1])
                opt = t.optim.SGD(m.parameters(), lr=0.1)
            if not first:
                m.train(mode)
            never = first
            guarded("load_state_dict after %r" % c["ops"][:i], lambda: m.load_state_dict(sd))
            par = dict(p0)
            dirty = True
        elif o == "clear":
            with t.no_grad():
                m.train()
        if m.training:
            agree(m, par, "training-mode output after %r" % c["ops"][:i + 1])
            q = m
            if op[-1] % 3 == 0:
                q = guarded("deepcopy", lambda: copy.deepcopy(m)).eval()
                agree(q, par, "evaluation-mode output after %r" % c["ops"][:i + 1])
                nt = nt or dirty
        else:
            before = state_bytes(m)
            agree(m, par, "evaluation-mode output after %r" % c["ops"][:i + 1])
            nt = nt or dirty
            y1, y2 = forward(m, x), forward(m, x)
            need(np.array_equal(y1, y2), "evaluation is not deterministic")
            after = state_bytes(m)
            need(before.keys() == after.keys() and all(np.array_equal(before[z], after[z]) for z in before),
                 "a forward pass in evaluation mode changed the state")
            same(np.concatenate([forward(m, x[:1]), forward(m, x[1:])]), y1, "evaluating samples one at a time", 1e-5)
        now = params_of(m)
        for n in par:
            need(np.array_equal(now[n], par[n]), "parameter %s changed by %r" % (n, op))
    for q, p in witnesses:
        for n, v in params_of(q).items():
            need(np.array_equal(v, p[n]), "parameters of a copied or replaced layer changed")
        agree(q, p, "output of a layer that was copied or replaced earlier")
    return nt


def ops_s(net=False):
    o = [("train",), ("eval",), ("eval",), ("edit",), ("step",), ("step",), ("copy",), ("save",), ("load",), ("into",), ("switch",)]
    if not net:
        o += [("inplace",), ("clear",)]
    one = st.sampled_from(o).flatmap(lambda q: SEED.map(lambda s: [q[0], s]))
    return st.lists(one, min_size=2, max_size=8)


def s_layer():
    def f(sp):
        return st.one_of(conv_specs(sp, maxk=4, size=4, total=5), conv_specs(sp, True, maxk=4, size=4, total=5).map(lambda d: dict(d, s=min(d["s"], 2), groups=min(d["groups"], 2))),
                         diff_specs(sp, size=4, total=4))
    return spaces(maxN=4, maxm=2).flatmap(f).flatmap(lambda l: st.fixed_dictionaries(
        {"layer": st.just(l), "ops": ops_s(), "n": st.integers(0, 3), "x": SEED}))


# ---- networks ----------------------------------------------------------------------------------------------------
def is_stat(k):
    return "running_" in k or "num_batches" in k


def values(seq):
    """parameters and running statistics by name"""
    return ({k: p.detach().numpy().copy() for k, p in seq.named_parameters()},
            {k: b.detach().numpy().copy() for k, b in seq.named_buffers() if is_stat(k)})


def reference(spec, vals, mode):
    """a new network holding the given parameters and statistics whose convolutions have never left training mode; mode 'eval' puts
    the layers without convolutions (batch normalisation, dropout) in evaluation mode"""
    t = L()["torch"]
    net = nets.build(spec, sym=False, drop=True, inplace=False)
    with t.no_grad():
        for k, p in net.seq.named_parameters():
            p.copy_(t.tensor(vals[0][k]))
        for k, b in net.seq.named_buffers():
            if is_stat(k):
                b.copy_(t.tensor(vals[1][k]))
    if mode == "eval":
        for m in net.seq.modules():
            if not any(type(q).__name__ in PART for q in m.modules()):
                m.eval()
    return net.seq


def c_net(c):
    t = L()["torch"]
    spec = c["net"]
    net = nets.build(spec, sym=False, drop=True, inplace=False)
    if net is None or not any(True for _ in net.seq.parameters()):
        return False
    seq, ft = net.seq, net.first.ft
    x = nets.image(spec, net)
    opt = t.optim.SGD(seq.parameters(), lr=0.05)
    vals = values(seq)
    saved, witnesses = None, []
    nt, dirty, never = False, False, True
    run = lambda s, z: forward(s, z)

    def agree(s, v, what):
        y = run(s, x)
        e = run(reference(spec, v, "eval"), x)
        if not np.isfinite(e).all():
            return False
        noise = np.abs(run(reference(spec, v, "eval"), (x * (1 + 1e-5 * rng(5).standard_normal(x.shape))).astype(np.float32)) - e).max()
        if noise > 2e-3 * max(1e-3, np.abs(e).max()):
            return False
        same(y, e, "%s: %s" % (net.kinds, what), 1.0, scale=3e-4 * max(1e-3, np.abs(e).max()) + 10 * noise)
        return True

    for i, op in enumerate(c["ops"]):
        o = op[0]
        hist = c["ops"][:i + 1]
        never = never and o in ("copy", "save", "load", "into")
        keep = True
        if o == "train":
            seq.train()
        elif o == "eval":
            seq.eval()
        elif o == "switch":
            seq.eval(); seq.train(); seq.eval()
        elif o == "edit":
            seq.train()
            g = rng(op[1])
            with t.no_grad():
                for p in seq.parameters():
                    p.add_(t.tensor(0.1 * g.standard_normal(tuple(p.shape)), dtype=p.dtype))
            keep, dirty = False, True
        elif o == "step":
            seq.train()
            xb = nets.image(spec, net, 3, i + 1)
            ref = reference(spec, vals, "train")
            out = []
            for s in (seq, ref):
                for p in s.parameters():
                    p.grad = None
                t.manual_seed(op[1])
                y = s(gt(xb, s.in_type)).tensor
                v = t.tensor(rng(op[1]).standard_normal(tuple(y.shape)), dtype=y.dtype)
                loss = (y * v).mean()
                if loss.requires_grad:
                    guarded("backward", loss.backward)
                out.append((y.detach().numpy().astype(np.float64), {k: None if p.grad is None else p.grad.numpy().copy() for k, p in s.named_parameters()}))
            if np.isfinite(out[1][0]).all():
                sc = max(1e-3, np.abs(out[1][0]).max())
                need(np.abs(out[0][0] - out[1][0]).max() <= 1e-4 * sc, "training-mode output after %r" % (hist,))
                G = max([np.abs(g).max() for g in out[1][1].values() if g is not None and g.size] + [1e-6])
                for k, g in out[1][1].items():
                    h = out[0][1][k]
                    need((g is None) == (h is None), "gradient of %s after %r" % (k, hist))
                    if g is not None and g.size and np.isfinite(g).all():
                        need(np.abs(g - h).max() <= 1e-3 * G, "gradient of %s after %r: off by %g" % (k, hist, np.abs(g - h).max()))
            for p in seq.parameters():
                if p.grad is not None:
                    p.grad.clamp_(-1.0, 1.0)
            before = values(seq)[0]
            grads = {k: None if p.grad is None else p.grad.numpy().copy() for k, p in seq.named_parameters()}
            opt.step()
            after = values(seq)[0]
            for k in before:
                e = before[k] if grads[k] is None else before[k] - 0.05 * grads[k]
                if e.size and np.isfinite(e).all():
                    same(after[k], e, "parameter %s after an optimiser step following %r" % (k, hist), 1e-5, scale=max(1.0, np.abs(e).max()))
            sv = values(ref)[1]
            for k, b in values(seq)[1].items():
                if sv[k].size and np.isfinite(sv[k]).all():
                    same(b, sv[k], "statistic %s after %r" % (k, hist), 1e-4, scale=max(1.0, np.abs(sv[k]).max()))
            keep, dirty = False, True
        elif o == "copy":
            q = guarded("deepcopy", lambda: copy.deepcopy(seq))
            witnesses.append((seq, vals))
            seq = q
            opt = t.optim.SGD(seq.parameters(), lr=0.05)
        elif o == "save":
            buf = io.BytesIO()
            t.save(seq.state_dict(), buf)
            saved = (buf.getvalue(), seq.training, vals, never)
        elif o in ("load", "into"):
            if saved is None:
                continue
            data, mode, v0, first = saved
            if first and o == "load" and not never:
                continue
            if o == "into":
                witnesses.append((seq, vals))
                spec2 = dict(spec, seed=op[1])
                seq = nets.build(spec2, sym=False, drop=True, inplace=False).seq
                opt = t.optim.SGD(seq.parameters(), lr=0.05)
            if not first:
                seq.train(mode)
            never = first
            guarded("load_state_dict after %r" % hist, lambda: seq.load_state_dict(t.load(io.BytesIO(data))))
            vals = v0
            dirty = True
        if not keep:
            vals = values(seq)
        now = values(seq)
        for a, b in zip(now, vals):
            need(all(np.array_equal(a[k], b[k], equal_nan=True) for k in b), "%r changed parameters or statistics" % (op,))
        if seq.training:
            if op[-1] % 2 == 0:
                q = guarded("deepcopy", lambda: copy.deepcopy(seq)).eval()
                nt = agree(q, vals, "evaluation-mode output after %r" % (hist,)) and dirty or nt
        else:
            before = state_bytes(seq)
            y = run(seq, x)
            nt = agree(seq, vals, "evaluation-mode output after %r" % (hist,)) and dirty or nt
            if np.isfinite(y).all():
                need(np.array_equal(run(seq, x), y), "evaluation is not deterministic after %r" % (hist,))
            after = state_bytes(seq)
            need(before.keys() == after.keys() and all(np.array_equal(before[z], after[z], equal_nan=True) for z in before),
                 "a forward pass in evaluation mode changed the state after %r" % (hist,))
    for q, v in witnesses:
        for a, b in zip(values(q), v):
            need(all(np.array_equal(a[k], b[k], equal_nan=True) for k in b), "parameters or statistics of a copied or replaced network changed")
        agree(q.eval(), v, "output of a network that was copied or replaced earlier")
    return nt


def s_net():
    return nets.specs(sym=False, maxlen=4, minlen=1).flatmap(lambda s: st.fixed_dictionaries({"net": st.just(s), "ops": ops_s(True)}))


FACETS = [Facet("layer", s_layer, c_layer, 1500, rule=RULE),
          Facet("network", s_net, c_net, 1200, rule=RULE)]
