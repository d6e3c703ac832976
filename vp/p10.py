"""P10: convolution and transposed convolution layers are equivariant, equal a plain convolution with their expanded filter, and
the filter obeys the kernel constraint, is linear in the weights and as expressive as the constraint allows."""
import numpy as np
from hypothesis import strategies as st
from .core import Facet, need
from .gen import (SEED, L, spaces, space, gspec, ftype, tensor, gt, PI, rng, grid_elements, weighted, el, rep_size, all_elements)
from .ref import same, act, plane, arr, ref_rep, blockdiag, rank_of, is_grid
from . import layers as ly

RULE = "non-trivial: the layer has at least two weights and some tested element moves the grid or mixes channels."
RULE_S = "non-trivial: the admissible filters of some field pair have dimension at least two."


def sps(**kw):
    return weighted((3, spaces(Ns=[4, 8, 2, 4], grid_axes=True, maxm=3)), (1, spaces(maxN=8, maxm=3)))


def s_conv():
    return sps().flatmap(lambda sp: st.fixed_dictionaries({"l": ly.conv_specs(sp), "n": st.integers(0, 3), "xs": SEED,
                                                           "sel": SEED, "eval": st.booleans(), "w": st.integers(0, 3)}))


def s_tconv():
    return sps().flatmap(lambda sp: st.fixed_dictionaries({"l": ly.conv_specs(sp, transposed=True), "n": st.integers(0, 3),
                                                           "xs": SEED, "sel": SEED, "eval": st.booleans(), "w": st.integers(0, 3)}))


def pick_elements(sp, sel, axis_only, m=4):
    es = grid_elements(sp)
    if axis_only:
        es = [e for e in es if abs(plane(sp, e)[0, 0]) > 0.5]
    g = rng(sel)
    if len(es) > m:
        es = [es[i] for i in sorted(g.permutation(len(es))[:m])]
    return es


def check_filter(c, m, W, what, tol=2e-5):
    """the expanded filter [out, in, k, k] (one group) obeys the constraint between any two related taps"""
    sp = c["sp"]
    gs = gspec(sp)
    k = W.shape[-1]
    K = W.reshape(W.shape[0], W.shape[1], -1)
    ri, ro = c["in"], c["out"]
    for e, p, q in ly.related_taps(sp, k, c["d"]):
        if c["kind"] == "diff" and not is_grid(plane(sp, e)):
            continue  # finite differences have the symmetry of the grid only; the operators are checked by their own facet
        O = blockdiag([ref_rep(gs, r, e) for r in ro])
        I = np.linalg.inv(blockdiag([ref_rep(gs, r, e) for r in ri]))
        reps_ = W.shape[0] // O.shape[0]
        for g in range(reps_):
            blk = K[g * O.shape[0]:(g + 1) * O.shape[0]]
            same(blk[:, :, q], np.einsum("ab,bcp,cd->adp", O, blk[:, :, p], I),
                 "%s: expanded filter between taps related by %r" % (what, e), tol)


def check_layer(c):
    l = c["l"]
    sp = l["sp"]
    gs = gspec(sp)
    t = L()["torch"]
    m = ly.build(l)
    if m is None:
        return False
    trans = l["kind"] == "tconv"
    what = "%s layer" % l["kind"]
    k = m.kernel_size
    m.train()
    nw = m.weights.numel()
    F, b = m.expand_parameters()
    F, b = arr(F), None if b is None else arr(b)
    Fin = F.transpose(1, 0, 2, 3) if trans else F
    G = l["groups"]
    ni, no = sum(rep_size(gs, r) for r in l["in"]), sum(rep_size(gs, r) for r in l["out"])
    need(F.shape == ((ni * G, no, k, k) if trans else (no * G, ni, k, k)), lambda: "%s: expanded filter of shape %s" % (what, F.shape))
    # constraint, per group
    if trans:
        for g in range(G):
            check_filter(l, m, Fin[:, g * ni:(g + 1) * ni], what)
    else:
        check_filter(l, m, F, what)
    # bias: invariant vector
    ntriv = sum(1 for r in m.out_type for i in r.irreps if m.out_type.fibergroup.irreps[i].is_trivial())
    need((b is not None) == (l["bias"] and ntriv > 0), lambda: "%s: bias=%r with %d invariant directions, but the expanded bias is %s" % (
        what, l["bias"], ntriv, "None" if b is None else "not None"))
    if b is not None:
        need(b.shape == (no * G,), "%s: bias shape" % what)
        for e in (all_elements(gs) or ([0.7, PI / 2] if gs[0] == "SO2" else [[0, 0.7], [1, 0.0], [1, 1.1]])):
            same(blockdiag([ref_rep(gs, r, e) for r in l["out"] * G]) @ b, b, "%s: expanded bias under %r" % (what, e), 1e-5)
        if l["seed"] % 4 == 0:
            need(m.bias.numel() == ntriv, "%s: %d bias parameters for %d invariant directions" % (what, m.bias.numel(), ntriv))
            with t.no_grad():
                E = arr(t.stack([setb(m, i) for i in range(ntriv)]))
            need(rank_of(E, 1e-5) == ntriv, "%s: the %d bias parameters are not independent" % (what, ntriv))
            ly.set_params(m, l["seed"])
    # linearity and individual effect of the weights
    w0 = m.weights.detach().clone()
    g = rng(c["xs"])
    w1 = t.tensor(g.standard_normal(nw), dtype=t.float32)
    with t.no_grad():
        E = m.basisexpansion
        same(E(2.0 * w0 - 0.5 * w1), 2.0 * arr(E(w0)) - 0.5 * arr(E(w1)), "%s: linearity of the filter in the weights" % what, 1e-5)
        m.weights.copy_(w1)
        F1 = arr(m.expand_parameters()[0])
        idx = sorted(set(int(i) for i in g.integers(0, nw, size=4)))
        for i in idx:
            w2 = w1.clone()
            w2[i] += 1.0
            m.weights.copy_(w2)
            d = np.abs(arr(m.expand_parameters()[0]) - F1).max()
            need(d > 1e-4, lambda: "%s: weight %d of %d has no effect on the filter" % (what, i, nw))
        m.weights.copy_(w0)
    # output against an ordinary convolution
    if c["eval"]:
        m.eval()
    n = c["n"]
    if trans:
        H, W = n + 1, n + 1 + c["w"] % 2
        if (min(H, W) - 1) * l["s"] - 2 * l["p"] + l["d"] * (k - 1) + 1 < 1:
            H = W = H + 2 + (2 * l["p"]) // l["s"]
    else:
        H, W = ly.in_size(l, n, k)
        if c["w"] == 1 and not isinstance(l["p"], list):
            W += l["s"]
    x = tensor(c["xs"], (2, m.in_type.size, H, W)).astype(np.float32)
    ref = (lambda y: ly.ref_tconv(y, F, b, l["p"], l["s"], l["d"], l["op"], G)) if trans else \
        (lambda y: ly.ref_conv(y, F, b, l["p"], l["s"], l["d"], l["mode"], G))
    with t.no_grad():
        y = m(gt(x, m.in_type))
        need(y.type == m.out_type, "%s: output type" % what)
        need(m.out_type == ftype(sp, l["out"] * G) and m.in_type == ftype(sp, l["in"] * G), "%s: declared types" % what)
        Y = arr(y)
        want = ref(x)
        sc = max(1.0, float(np.abs(want).max()))
        same(Y, want, "%s: output against an ordinary convolution with the expanded filter" % what, 5e-5, scale=sc)
        if c["w"] == 2 and not trans:
            # inputs for which the output grid is not centred
            x2 = tensor(c["xs"] + 1, (1, m.in_type.size, H + 1, W + 2)).astype(np.float32)
            same(m(gt(x2, m.in_type)), ref(x2), "%s: output on a larger input" % what, 5e-5, scale=sc * 2)
        # equivariance
        nt = False
        for e in pick_elements(sp, c["sel"], isinstance(l["p"], list) and l["p"][0] != l["p"][1]):
            ee = el(gs, e)
            gx = act(sp, m.in_type.representations, ee if not isinstance(e, list) else tuple(e), x)
            gy = act(sp, m.out_type.representations, ee, Y)
            same(m(gt(gx, m.in_type)), gy, "%s: equivariance under %r" % (what, e), 1e-4, scale=sc)
            nt = nt or not np.allclose(plane(sp, e), np.eye(2))
    return nw >= 2 and nt


def setb(m, i):
    m.bias.zero_()
    m.bias[i] = 1.0
    return m.expand_parameters()[1].clone()


# ---- expressiveness ----------------------------------------------------------------------------------------------
def s_span():
    def f(sp):
        gs = gspec(sp)
        tr = st.booleans()
        return tr.flatmap(lambda T: ly.conv_specs(sp, transposed=T, maxk=5, fields=2, size=4, total=6, groups_ok=False, strided=False)).filter(
            lambda l: ly.conv_cost(l) <= 1500 and l["mo"] is None)
    return weighted((2, spaces(Ns=[4, 2, 3, 6, 5, 8], maxm=3)), (1, spaces(maxN=8, maxm=3))).flatmap(
        lambda sp: st.fixed_dictionaries({"l": f(sp)}))


def c_span(c):
    l = c["l"]
    sp = l["sp"]
    gs = gspec(sp)
    t = L()["torch"]
    m = ly.build(l)
    blocks = [(a, b) for a in range(len(l["in"])) for b in range(len(l["out"]))]
    si = np.concatenate([[0], np.cumsum([rep_size(gs, r) for r in l["in"]])]).astype(int)
    so = np.concatenate([[0], np.cumsum([rep_size(gs, r) for r in l["out"]])]).astype(int)
    if m is not None:
        nw = m.weights.numel()
        fs = []
        with t.no_grad():
            for i in range(nw):
                m.weights.zero_()
                m.weights[i] = 1.0
                F = arr(m.expand_parameters()[0])
                fs.append(F.transpose(1, 0, 2, 3) if l["kind"] == "tconv" else F)
        Fs = np.stack(fs)
    seen = 0
    big = False
    for a, b in blocks:
        ref = ly.ref_span(l, l["in"][a], l["out"][b])
        what = "%s layer with %d x %d filters, %s -> %s" % (l["kind"], l["k"], l["k"], l["in"][a], l["out"][b])
        if m is None:
            lib = np.zeros((0, ref.shape[1]))
        else:
            blk = Fs[:, so[b]:so[b + 1], si[a]:si[a + 1]].reshape(nw, -1)
            nz = np.abs(blk).max(axis=1) > 1e-5 * np.abs(Fs).reshape(nw, -1).max(axis=1)
            lib = blk[nz]
            seen += int(nz.sum())
        # admissible filters of non-negligible size are reachable
        if len(ref):
            if len(lib):
                U, s, Vt = np.linalg.svd(lib / np.linalg.norm(lib, axis=1)[:, None], full_matrices=False)
                V = Vt[s > 1e-4]
                res = ref - (ref @ V.T) @ V
            else:
                res = ref
            need(np.abs(res).max() < 5e-3, lambda: "%s: an admissible kernel of size %.3g is out of reach of the %d weights (residue %.3g)"
                 % (what, np.abs(ref[int(np.abs(res).max(axis=1).argmax())]).max(), len(lib), np.abs(res).max()))
        if len(lib):
            need(len(ref) > 0, lambda: "%s: has %d weights but no kernel is admissible" % (what, len(lib)))
            nr = np.linalg.norm(ref, axis=1)
            R = ref[nr > 1e-12] / nr[nr > 1e-12][:, None]
            U, s, Vt = np.linalg.svd(R, full_matrices=False)
            V = Vt[s > 1e-9 * s[0]]
            ln = lib / np.linalg.norm(lib, axis=1)[:, None]
            res = ln - (ln @ V.T) @ V
            need(np.abs(res).max() < 5e-3, lambda: "%s: weight %d produces a filter outside the admissible kernels (residue %.3g)"
                 % (what, int(np.abs(res).max(axis=1).argmax()), np.abs(res).max()))
            big = big or len(V) > 1
    if m is not None:
        need(seen == nw, "%s layer: %d weights, but %d weight-to-field-pair relations" % (l["kind"], nw, seen))
    return big


FACETS = [Facet("conv", s_conv, check_layer, 3200, rule=RULE),
          Facet("transposed", s_tconv, check_layer, 1600, rule=RULE),
          Facet("span", s_span, c_span, 2000, rule=RULE_S)]
