"""P27: dropout is inert in evaluation and only removes mass in training."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, stats
from ..core import Sub

RULE = ("A case is a model or layer configuration with a dropout probability. Non-trivial: dropout positive and some region with at least two children.")
ASSUMPTIONS = ["children of a region: the products of a linsum region, the inputs of a sum, linsum2 or einsum region, the repetitions of the mixing layer",
               "statistical tests: a violation needs p < 1e-6 twice, on independent samples",
               "the root sum of the bottom-up structure is not subject to dropout (it is not given any)"]
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")
NAN = float("nan")


@st.composite
def st_model(draw):
    cfg = draw(gen.einet_cfg(wide="SIRKCFV", huge=True, kinds=ALL, max_states=None, max_F=12, max_C=2, max_S=4, max_I=4, max_R=3, max_K=3, discrete=None,
                             dropout=(0.0, 0.05, 0.3, 0.5, 0.8, 0.95)))
    return {"cfg": cfg, "s": draw(gen.SEED), "n": draw(st.integers(1, 5)), "p": draw(st.sampled_from([0.0, 0.3])), "far": draw(st.sampled_from([1.0, 1.0, 30.0, 1e3]))}


def run_model(case, t):
    cfg = case["cfg"]
    m, ref = gen.build(cfg), gen.build(dict(cfg, dropout=0.0))
    x = gen.random_states(cfg, case["n"], case["s"])
    for f, d in enumerate(gen.domain(cfg)):
        if d is None:
            x[:, :, f] *= case["far"]
    mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]
    x = x.masked_fill(mask, NAN)
    t.label(*gen.labels(cfg))
    t.label("dropout=%g" % cfg["dropout"])
    t.nontrivial(gen.nontrivial(cfg) and cfg["dropout"] > 0)
    want = ref(x)
    t.ok(torch.equal(m(x), want), "evaluation mode: the dropout setting changes the log-likelihood")
    t.ok(torch.equal(m.sample(num_samples=3, seed=1), ref.sample(num_samples=3, seed=1)), "evaluation mode: the dropout setting changes samples")
    ev = x.masked_fill(torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"] + 1)) < 0.5, NAN)
    t.ok(torch.equal(m.sample(evidence=ev, seed=1), ref.sample(evidence=ev, seed=1)), "evaluation mode: the dropout setting changes conditional samples")
    t.ok(torch.equal(m.mpe(evidence=ev), ref.mpe(evidence=ev)), "evaluation mode: the dropout setting changes the MPE")
    before = x.clone()
    m.train()
    torch.manual_seed(case["s"])
    a = m(x)
    b = m(x)
    torch.manual_seed(case["s"])
    c = m(x)
    t.ok(a.shape == want.shape and bool(torch.isfinite(a).all()) and bool(torch.isfinite(b).all()), f"training mode: log-likelihood {a.tolist()} / {b.tolist()}")
    for v in (a, b):
        t.ok(bool((v <= want + 1e-4 * (1 + want.abs())).all()), f"training mode: dropout added mass, the log-likelihoods {v.tolist()} are above {want.tolist()}")
    t.ok(torch.equal(a, c), "training mode: the dropout is not controlled by the global random state")
    t.ok(torch.equal(torch.nan_to_num(x), torch.nan_to_num(before)), "the input was modified")
    if cfg["dropout"] == 0.0:
        t.ok(torch.equal(a, want), "without dropout, training and evaluation mode differ")
    else:
        g = torch.autograd.grad(a.sum(), [p for p in m.parameters() if p.requires_grad], allow_unused=True)
        t.ok(all(x is None or bool(torch.isfinite(x).all()) for x in g), "training mode: gradient not finite")
    m.eval()
    t.ok(torch.equal(m(x), want), "after training-mode calls, evaluation mode differs")
    reach(cfg, t)
    # cached leaf densities survive training-mode forwards
    m.train()
    m(x, cache_index=5)
    m(x, cache_index=5)
    m.eval()
    t.ok(torch.equal(m(x, cache_index=5), want), "a training-mode forward altered the cached leaf densities")


def reach(cfg, t):
    """The configured dropout reaches every sum layer of the circuit: each of them loses mass in training."""
    from simple_einet.abstract_layers import AbstractSumLayer
    from simple_einet.layers.sum import SumLayer

    if cfg["dropout"] < 0.3:
        return
    m = gen.build(cfg).train()
    seen = []

    def hook(l, args, out):
        if args and l.num_sums_in > 1 and not (cfg["struct"] == "bottom-up" and isinstance(l, SumLayer)):
            seen.append((l, args[0].shape))

    hs = [l.register_forward_hook(hook) for l in m.modules() if isinstance(l, AbstractSumLayer)]
    m(gen.random_states(cfg, 1, 0))
    for h in hs:
        h.remove()
    for l, shape in seen:
        with torch.no_grad():
            l.logits.zero_()
            x = torch.zeros(64, *shape[1:])
            full = l.eval()(x)
            out = l.train()(x)
        t.ok(bool((out < full - 1e-4).any()), f"dropout {cfg['dropout']} is set, but {type(l).__name__} (of {len(seen)} sum layers) removes nothing in 64 draws")


# ------------------------------------------------------------ which children are removed, how often
@st.composite
def st_layer(draw):
    kind = draw(st.sampled_from(["sum", "linsum", "linsum2", "einsum", "mixing"]))
    return {"kind": kind, "S": draw(st.integers(1, 3 if kind in ("einsum", "linsum2") else 4)), "O": draw(st.integers(1, 3)), "R": draw(st.integers(1, 3)),
            "D": draw(st.integers(1, 2)) * (1 if kind in ("sum", "mixing") else 2), "p": draw(st.sampled_from([0.1, 0.3, 0.5, 0.7, 0.9])),
            "s": draw(gen.SEED)}


def make_layer(case):
    from simple_einet.layers.einsum import EinsumLayer
    from simple_einet.layers.linsum import LinsumLayer, LinsumLayer2
    from simple_einet.layers.mixing import MixingLayer
    from simple_einet.layers.sum import SumLayer

    kw = dict(num_features=case["D"], num_sums_in=case["S"], num_sums_out=case["O"], dropout=case["p"])
    if case["kind"] != "mixing":
        kw["num_repetitions"] = case["R"]
    l = {"sum": SumLayer, "linsum": LinsumLayer, "linsum2": LinsumLayer2, "einsum": EinsumLayer, "mixing": MixingLayer}[case["kind"]](**kw)
    with torch.no_grad():
        l.logits.zero_()
    return l.train()


def decode(case, N):
    """Run the layer on inputs whose child contributions are distinct powers of two; returns a list of (subset integer arrays, S)."""
    S, D, R, O = case["S"], case["D"], case["R"], case["O"]
    l = make_layer(case)
    k = case["kind"]
    bits = torch.arange(S).float() * math.log(2)
    if k == "mixing":
        x = bits.view(1, 1, 1, S).expand(N, D, O, S).clone()
        out = l(x).double().exp() * S
        return [out.reshape(-1)], out
    x = torch.zeros(N, D, S, R)
    if k == "sum":
        x[:] = bits.view(1, 1, S, 1)
        out = l(x).double().exp() * S
        return [out[:, :, 0].reshape(-1)], out
    if k == "linsum":
        x[:, 0::2] = bits.view(1, 1, S, 1)
        out = l(x).double().exp() * S
        return [out[:, :, 0].reshape(-1)], out
    # products of two sums: left subset a = sum of 2^i, right subset sum of 2^(S j)
    x[:, 0::2] = bits.view(1, 1, S, 1)
    x[:, 1::2] = S * bits.view(1, 1, S, 1)
    out = l(x).double().exp() * S * S
    v = out[:, :, 0].reshape(-1).round()
    digits = torch.stack([torch.floor(v / 2 ** (S * j)) % 2**S for j in range(S)], -1)
    left = digits.max(-1)[0]
    right = ((digits > 0) * 2.0 ** torch.arange(S)).sum(-1)
    ok = ((digits == 0) | (digits == left[:, None])).all(-1)
    left[~ok] = -1
    return [left, right], out


def run_layer(case, t):
    S, p = case["S"], case["p"]
    t.label(case["kind"], "S=%d" % S, "R=%d" % case["R"], "p=%g" % p)
    t.nontrivial(S > 1)
    probs = np.zeros(2**S + 1)
    for a in range(1, 2**S):
        b = bin(a).count("1")
        probs[a] = (1 - p) ** b * p ** (S - b)
    probs /= probs.sum()

    def counts(N, seed):
        torch.manual_seed(case["s"] + seed)
        parts, out = decode(case, N)
        t.ok(bool(torch.isfinite(out).all()) and bool((out > 0).all()), f"{case['kind']}: a region lost all its children")
        res = []
        for v in parts:
            r = v.round()
            t.ok(bool(((v - r).abs() < 1e-2).all()), f"{case['kind']}: output is not a sum over a subset of the children")
            r[(r < 1) | (r >= 2**S)] = 2**S
            res.append(np.bincount(r.long().numpy(), minlength=2**S + 1))
        return res

    N = 1500
    c1 = counts(N, 1)
    for i in range(len(c1)):
        t.checks += 1
        if stats.chi2_p(probs, c1[i]) < stats.P_CUT:
            c2 = counts(4 * N, 2)[i]
            t.ok(stats.chi2_p(probs, c2) >= stats.P_CUT, f"{case['kind']}: kept subsets have frequencies {np.round(c2 / c2.sum(), 3).tolist()}, expected {np.round(probs, 3).tolist()}")


# ------------------------------------------------------------ mass of stand-alone layers
@st.composite
def st_mass(draw):
    return {**draw(st_layer()), "n": draw(st.integers(1, 6)), "shift": draw(st.sampled_from([0.0, 50.0, -50.0, -2e3, -3e4, -1e6])), "gain": draw(st.sampled_from([0.0, 1.0, 20.0, 300.0])), "wgain": draw(st.sampled_from([0.0, 1.0, 3.0]))}


def run_mass(case, t):
    """In training a layer reports at most the mass of all and at least that of one child."""
    l = make_layer(case)
    g = torch.Generator().manual_seed(case["s"])
    with torch.no_grad():
        l.logits.copy_(case["wgain"] * torch.randn(l.logits.shape, generator=g))
    shape = (case["n"], case["D"], case["O"], case["S"]) if case["kind"] == "mixing" else (case["n"], case["D"], case["S"], case["R"])
    x = case["shift"] + case["gain"] * torch.randn(shape, generator=g)
    t.label(case["kind"], "shift=%g" % case["shift"])
    t.nontrivial(case["S"] > 1)
    torch.manual_seed(case["s"])
    got, again = l(x).double(), l(x).double()
    full = l.eval()(x).double()
    tol = 1e-4 + 2e-6 * full.abs()
    for v in (got, again):
        t.ok(v.shape == full.shape and bool(torch.isfinite(v).all()), f"{case['kind']}: training output {v.tolist()}")
        t.ok(bool((v <= full + tol).all()), lambda: f"{case['kind']}: dropout added mass: {v[v > full + tol][:3].tolist()} from {full[v > full + tol][:3].tolist()}")
    # one surviving child: the smallest weighted child of any region (pair) bounds the output from below
    lw = l.logits.detach().double()
    spread = ((lw.max() - lw.min()) + math.log(max(2, case["S"] ** 2))) * (2 if case["kind"] == "linsum2" else 1)
    low = {"sum": x.amin(2), "mixing": x.amin(3)}.get(case["kind"])
    low = (x[:, 0::2].amin(2) + x[:, 1::2].amin(2)) if low is None else low
    low = low.double() - spread
    low = low.unsqueeze(2).expand_as(got) if got.dim() == low.dim() + 1 else low.expand_as(got)
    t.ok(bool((got >= low - 1e-3 - 2e-6 * low.abs()).all()), f"{case['kind']}: output {got.tolist()} is below its least child {low.tolist()}")


SUBS = [
    Sub("models", st_model, run_model, quick=900, desc="dropout model against the same model without dropout (evaluation), finite seeded draws (training), round trips of the mode"),
    Sub("mass", st_mass, run_mass, quick=1500, desc="stand-alone layers in training: at most the mass of all children, at least that of one, at any magnitude"),
    Sub("layers", st_layer, run_layer, quick=240, desc="subsets of children kept by a layer, decoded from outputs that are sums of distinct powers of two, against independent Bernoulli(p) conditioned on one survivor"),
]
