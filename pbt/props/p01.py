"""P01: every model head is a normalised distribution."""
import math

import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Sub

RULE = ("A case is an Einet configuration (structure, layer type, leaf types, sizes, depth, classes, repetitions), a seed "
        "for structure and parameters and gains that sharpen them. Non-trivial: some sum node has at least two children.")
ASSUMPTIONS = ["float32 evaluation: sums are compared with 1 at a tolerance of 1e-3",
               "multivariate-normal leaves do not support missing values (documented), so no all-missing query for them"]


def run_enum(case, t):
    cfg = case
    m = gen.build(cfg)
    x = gen.all_states(cfg)
    ll = gen.forward_chunks(m, x).double()
    t.ok(ll.shape == (x.shape[0], cfg["K"]), f"output shape {tuple(ll.shape)}")
    t.ok(not torch.isnan(ll).any().item(), "NaN log-likelihood on an in-domain input")
    tot = ll.exp().sum(0)
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    t.ok(bool((tot - 1).abs().max() < 1e-3), f"sums over the {x.shape[0]} states: {tot.tolist()}")
    z = m(torch.full((2, cfg["C"], cfg["F"]), float("nan")))
    t.ok(bool(z.abs().max() < 1e-4), f"log-likelihood of a completely missing input: {z.tolist()}")


def run_missing(case, t):
    cfg = case
    m = gen.build(cfg)
    z = m(torch.full((2, cfg["C"], cfg["F"]), float("nan")))
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    t.ok(z.shape == (2, cfg["K"]), f"output shape {tuple(z.shape)}")
    t.ok(bool(z.abs().max() < 1e-3), f"log-likelihood of a completely missing input: {z.tolist()}")
    z = m(gen.random_states(cfg, 2, cfg["seed"]), marginalized_scopes=list(range(cfg["F"])))
    t.ok(bool(z.abs().max() < 1e-3), f"log-likelihood with every feature marginalised: {z.tolist()}")


def quad_axis(h, tmax):
    """Nodes and log-weights of trapezoid quadrature under x = sinh(t)."""
    tt = torch.arange(-tmax, tmax + h / 2, h, dtype=torch.float64)
    return torch.sinh(tt).float(), torch.log(torch.cosh(tt) * h)


def run_quad(case, t):
    cfg = case
    m = gen.build(cfg)
    a, lw = quad_axis(0.03, 5.3)
    g = torch.cartesian_prod(a, a).view(-1, cfg["C"], cfg["F"])
    w = (lw[:, None] + lw[None, :]).reshape(-1)
    ll = gen.forward_chunks(m, g).double()
    tot = (ll + w[:, None]).exp().sum(0)
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    t.ok(bool((tot - 1).abs().max() < 3e-3), f"integral over the plane: {tot.tolist()}")


def run_mvn4(case, t):
    cfg = case
    m = gen.build(cfg)
    with torch.no_grad():  # keep every scale within a range the fixed grid resolves
        for n, p in m.named_parameters():
            if p.requires_grad and n.startswith("leaf"):
                p.clamp_(-0.35, 0.35)
    h = 0.55
    a = torch.arange(-6.5, 6.5 + h / 2, h)
    g = torch.cartesian_prod(a, a, a, a).view(-1, cfg["C"], cfg["F"])
    ll = gen.forward_chunks(m, g).double()
    tot = (ll + 4 * math.log(h)).exp().sum(0)
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    t.ok(bool((tot - 1).abs().max() < 5e-3), f"integral over R^4: {tot.tolist()}")


def st_quad():
    return gen.einet_cfg(kinds=("normal", "ratnormal"), min_F=2, max_F=2, max_C=1, max_states=None, discrete=False,
                         leaf_gains=(0.0, 0.4))


@st.composite
def st_mvn4(draw):
    F = draw(st.sampled_from([4]))
    cfg = draw(gen.einet_cfg(leaf={"type": "mvn", "card": draw(st.sampled_from([2, 2, 4]))}, min_F=F, max_F=F, max_C=1,
                             max_states=None, leaf_gains=(0.3,), structs=gen.STRUCTS[:3]))
    return cfg


SUBS = [
    Sub("enumerate", lambda: gen.einet_cfg(wide="SIRK"), run_enum, quick=500,
        desc="discrete leaves; sum of exp(log-likelihood) over every joint value, and the completely missing input"),
    Sub("missing", lambda: gen.einet_cfg(wide="SIRKCFV", huge=True, max_F=40, max_C=3, max_states=None, max_S=6, max_I=6, max_R=4, max_K=5,
                                         kinds=("bernoulli", "categorical", "binomial", "normal", "ratnormal")),
        run_missing, quick=500, desc="any size and leaf type; the completely missing input has log-likelihood 0"),
    Sub("integrate", st_quad, run_quad, quick=40, desc="continuous leaves on two features; quadrature over the plane"),
    Sub("integrate4", st_mvn4, run_mvn4, quick=16, desc="multivariate normal leaves on four features; quadrature over R^4"),
]
