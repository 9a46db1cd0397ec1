"""Stand-alone leaf layers: generation, construction with random parameters, float64 reference densities and distribution functions."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from . import gen

SIMPLE = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")
LN2PI = math.log(2 * math.pi)


@st.composite
def leaf_spec(draw, kinds=SIMPLE + ("mvn",), max_k=6, max_n=40):
    t = draw(st.sampled_from(kinds))
    if t == "categorical":
        return {"type": t, "bins": draw(st.integers(1, max_k))}
    if t == "binomial":
        return {"type": t, "n": draw(st.one_of(st.integers(1, 4), st.sampled_from([1, 7, 15, max_n])))}
    if t == "ratnormal":
        lo = draw(st.sampled_from([0.0, 0.1, 0.5, 1.0]))
        leaf = {"type": t, "min_sigma": lo, "max_sigma": lo + draw(st.sampled_from([0.25, 1.0, 2.0]))}
        m = draw(st.sampled_from([None, (-1.0, 1.0), (0.0, 1.0), (-2.0, 0.0), (0.5, 3.0), (-3.0, -1.0), (-1.0, 0.5)]))
        if m:
            leaf["min_mean"], leaf["max_mean"] = m
        return leaf
    if t == "mvn":
        return {"type": t, "card": draw(st.integers(1, 4))}
    return {"type": t}


@st.composite
def layer(draw, kinds=SIMPLE + ("mvn",), max_F=5, max_C=3, max_L=3, max_R=3, max_n=40, wide=False):
    spec = draw(leaf_spec(kinds, max_n=max_n))
    F = draw(st.integers(1, max_F))
    if spec["type"] == "mvn":
        F = spec["card"] * draw(st.integers(1, 3))
    case = {"leaf": spec, "F": F, "C": draw(st.integers(1, max_C)), "L": draw(st.integers(1, max_L)), "R": draw(st.integers(1, max_R)), "seed": draw(gen.SEED),
            "gain": draw(st.sampled_from([1.0, 1.0, 0.0, 3.0]))}
    if wide:
        gen.widen(draw, case, {"C": (4, 8), "L": (8, 40), "R": (6, 20), **({} if spec["type"] == "mvn" else {"F": (20, 80)})})
        if spec["type"] == "categorical" and draw(st.integers(0, 6)) == 6:
            spec["bins"] = draw(st.sampled_from([16, 33, 64, 256, 300]))
    return case


def make(case):
    cls, kw = gen.leaf_class_kwargs(case["leaf"])
    gen.seed_all(case["seed"])
    m = cls(num_features=case["F"], num_channels=case["C"], num_leaves=case["L"], num_repetitions=case["R"], **kw)
    g = torch.Generator().manual_seed(case["seed"] ^ 0xA11)
    if case["seed"] % 5 == 0:
        # used before its parameters are set: nothing may be remembered
        state = torch.get_rng_state()
        for q in (lambda: m(torch.zeros(2, case["C"], case["F"]), None), m.get_params):
            for on in (False, True):
                try:
                    with torch.set_grad_enabled(on):
                        q()
                except Exception:  # judged elsewhere
                    pass
        torch.set_rng_state(state)
    with torch.no_grad():
        for p in m.parameters():
            if p.requires_grad:
                new = p + case["gain"] * torch.randn(p.shape, generator=g)
                if case["seed"] % 2:
                    p.copy_(new)
                else:
                    p.data = new
    return m


def ref_params(spec, m, grad=False):
    """Documented parameters in float64, shape [C, F, L, R] (+ extra dims); differentiable with grad."""
    t = spec["type"]
    d = lambda p: p.double() if grad else p.detach().double()
    if t == "bernoulli":
        return {"logit": d(m.probs)[0]}
    if t == "categorical":
        return {"logp": torch.log_softmax(d(m.logits)[0], -1)}
    if t == "binomial":
        return {"logit": d(m.logits)[0]}
    if t == "normal":
        return {"mu": d(m.means)[0], "sigma": torch.exp(0.5 * d(m.logvar)[0])}
    if t == "ratnormal":
        lo, hi = spec["min_sigma"], spec["max_sigma"]
        mu = d(m.means)[0]
        if "max_mean" in spec:
            mu = spec["min_mean"] + (spec["max_mean"] - spec["min_mean"]) * torch.sigmoid(mu)
        return {"mu": mu, "sigma": lo + (hi - lo) * torch.sigmoid(d(m.stds)[0])}
    if t == "mvn":
        L = torch.tril(d(m.L_offdiag), -1) + torch.diag_embed(torch.exp(d(m.L_diag_log)))
        return {"mu": d(m.means), "tril": L}
    raise KeyError(t)


def log_pmf(spec, P, k):
    """Reference log-mass of value k (discrete leaves), [C, F, L, R]."""
    t = spec["type"]
    if t == "bernoulli":
        l = P["logit"]
        return -torch.nn.functional.softplus(-l) if k == 1 else -torch.nn.functional.softplus(l)
    if t == "categorical":
        return P["logp"][..., k]
    n = spec["n"]
    l = P["logit"]
    return math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) - k * torch.nn.functional.softplus(-l) - (n - k) * torch.nn.functional.softplus(l)


def log_prob(spec, P, x):
    """Reference log-density [N, C, F(/card), L, R] of x [N, C, F] (no missing values)."""
    t = spec["type"]
    vals = gen.leaf_values(spec)
    x = x.double()
    if vals is not None:
        tab = torch.stack([log_pmf(spec, P, k) for k in vals])  # [V, C, F, L, R]
        C, F = x.shape[1:]
        ci = torch.arange(C)[None, :, None].expand(len(x), C, F)
        fi = torch.arange(F)[None, None, :].expand(len(x), C, F)
        return tab[x.long(), ci, fi]
    if t == "mvn":
        k = spec["card"]
        N, C, F = x.shape
        v = x.reshape(N, C, F // k, 1, 1, k) - P["mu"]
        z = torch.linalg.solve_triangular(P["tril"].expand(N, *P["tril"].shape), v.unsqueeze(-1), upper=False).squeeze(-1)
        ld = torch.log(torch.diagonal(P["tril"], dim1=-2, dim2=-1)).sum(-1)
        return -0.5 * (z**2).sum(-1) - ld - 0.5 * k * LN2PI
    z = (x[..., None, None] - P["mu"]) / P["sigma"]
    return -0.5 * z**2 - torch.log(P["sigma"]) - 0.5 * LN2PI


def random_x(case, n, seed, spread=2.0):
    cfg = {"F": case["F"], "C": case["C"], "leaf": case["leaf"]}
    return gen.random_states(cfg, n, seed, spread)


def pit(spec, P, x, pick, T, rng):
    """(Randomised) probability integral transform of samples x [N, C, F]; pick(t) selects the component of each entry from a
    [C, F, L, R, ...] tensor as [N, C, F, ...]. Uniform iff x follows the selected leaf (leaf temperature T)."""
    from scipy.stats import norm

    t = spec["type"]
    vals = gen.leaf_values(spec)
    if vals is None and t != "mvn":
        mu, sg = pick(P["mu"]), pick(P["sigma"]) * math.sqrt(T)
        return norm.cdf(((x.double() - mu) / sg).numpy())
    if t == "mvn":
        k = spec["card"]
        N, C, F = x.shape
        out = torch.empty(N, C, F, dtype=torch.float64)
        sel = lambda a: torch.stack([a[:, g] for g in range(F // k)], 1)
        mu = pick(P["mu"].repeat_interleave(k, 1))[:, :, ::k]  # [N, C, G, k]
        tr = pick(P["tril"].repeat_interleave(k, 1))[:, :, ::k]
        v = x.double().reshape(N, C, F // k, k) - mu
        z = torch.linalg.solve_triangular(tr, v.unsqueeze(-1), upper=False).squeeze(-1)
        out = z.reshape(N, C, F)
        return norm.cdf(out.numpy())
    tab = torch.stack([log_pmf(spec, P, k) for k in vals], -1)  # [C, F, L, R, V]
    if t == "categorical":
        tab = torch.log_softmax(tab / T, -1)
    p = pick(tab).exp()  # [N, C, F, V]
    c = p.cumsum(-1)
    i = x.long().clamp(0, len(vals) - 1).unsqueeze(-1)
    hi = c.gather(-1, i)[..., 0]
    pi = p.gather(-1, i)[..., 0]
    return (hi - pi * torch.from_numpy(rng.random(tuple(x.shape)))).numpy().clip(0, 1)
