"""P39: mixed precision keeps the model."""
import contextlib
import math

import torch
from hypothesis import strategies as st

from .. import conv, gen
from ..core import Sub
from . import p38
from .p38 import NAN, Wrap

RULE = ("A case is a model (Einet or convolutional circuit), inputs with missing entries and queries, evaluated with and without bfloat16 autocast. "
        "Non-trivial: the model has sum nodes.")
ASSUMPTIONS = ["bfloat16 keeps eight bits: each log-density of a region and each probability in an einsum node may be off by a relative 2^-8",
               "draws given evidence may differ where the rounded densities move a choice: a bounded share of the rows",
               "CPU autocast; float16 autocast (overflow at 65504) is not judged"]


def mixed():
    return torch.autocast("cpu", torch.bfloat16)


class Intact:
    """Parameters and buffers keep values and types."""

    def __init__(self, m):
        self.m, self.old = m, {k: v.clone() for k, v in m.state_dict().items()}

    def check(self, t):
        new = self.m.state_dict()
        bad = [k for k in self.old if k not in new or new[k].dtype != self.old[k].dtype or not torch.equal(torch.nan_to_num(new[k]), torch.nan_to_num(self.old[k]))]
        t.ok(not bad and len(new) == len(self.old), f"mixed-precision calls changed {bad} of the model's state")


def bound(case, m, x):
    """Allowed error: 2^-7 times (the leaf log-densities, largest component each, rounded at every level, plus one per inner node)."""
    leaf = m.leaf_data if case["conv"] else getattr(m.leaf, "base_leaf", m.leaf)
    with torch.no_grad():
        ll = leaf(x.clone(), None)
    mag = ll.abs().flatten(3).amax(-1).flatten(1).sum(1)
    levels = len(m.layers) if case["conv"] else 1
    return 2.0 ** -7 * (levels * mag + 2 * nodes(case) + 1)


def nodes(case):
    cfg = case["cfg"]
    return cfg["F"] if case["conv"] else 2 ** cfg["depth"]


@st.composite
def st_like(draw):
    case = draw(p38.st_model())
    case["miss"] = draw(st.booleans())
    return case


def run_like(case, t):
    cfg = case["cfg"]
    m = p38.make(case, t)
    w = Wrap(cfg, m, case["conv"])
    x = gen.random_states(cfg, case["n"], case["s"])
    if case["miss"]:
        x = x.masked_fill(torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"], NAN)
    keep = x.clone()
    a = w.ll(x)
    intact = Intact(m)
    with mixed():
        b = w.ll(x)
    t.ok(torch.equal(torch.nan_to_num(x, nan=-9.0), torch.nan_to_num(keep, nan=-9.0)), "the input was modified")
    t.ok(b.shape == a.shape and b.dtype == torch.float32, f"likelihoods in {b.dtype} of shape {tuple(b.shape)}")
    tol = bound(case, m, x)[:, None]
    bad = ~((a - b).abs() <= tol)
    t.ok(not bool(bad.any()), lambda: f"log-likelihoods {b[bad][:3].tolist()} in mixed precision, {a[bad][:3].tolist()} in single (allowed {float(tol.max()):.3f})")
    t.ok(torch.equal(w.ll(x), a), "a mixed-precision call changed later single-precision likelihoods")
    intact.check(t)
    if not case["conv"] and cfg["K"] > 1:
        with torch.no_grad():
            p = m.posterior(x)
            with mixed():
                q = m.posterior(x)
        rnd = 1e-4 + 1e-6 * float(a.abs().max())  # a posterior is a difference of log-likelihoods, each rounded to single precision
        t.ok(float((q.exp().sum(1) - 1).abs().max()) < rnd, f"posteriors {q.exp().sum(1).tolist()} do not sum to one")
        t.ok(bool(((p - q).abs() <= 2 * tol).all()), lambda: f"posterior {q.tolist()} in mixed precision, {p.tolist()} in single")
    # gradients: the same direction
    if cfg["gs"] and not case["miss"] and float(tol.max()) < 0.5:
        ps = [p for p in m.parameters() if p.requires_grad]
        gs = []
        for ctx in (contextlib.nullcontext(), mixed()):
            with ctx:
                g = torch.autograd.grad(m(w.img(x)).mean(), ps, allow_unused=True)
            gs.append(torch.cat([torch.zeros(p.numel()) if v is None else v.flatten() for v, p in zip(g, ps)]))
        t.ok(bool(torch.isfinite(gs[1]).all()), "non-finite gradient in mixed precision")
        na, d = float(gs[0].norm()), float((gs[0] - gs[1]).norm())
        intact.check(t)
        t.ok(d <= 1e-4 + na * min(1.0, 4 * float(tol.max()) + 0.1), f"gradient differs by {d:.3g} from the single-precision one of norm {na:.3g}")


@st.composite
def st_query(draw):
    case = draw(p38.st_query())
    case["model64"] = False
    return case


def run_query(case, t):
    with mixed():
        p38.run_query(case, t)


@st.composite
def st_draws(draw):
    case = draw(p38.st_model())
    case["N"] = 200
    case["seed"] = draw(st.integers(0, 10**6))
    return case


def run_draws(case, t):
    cfg = case["cfg"]
    m = p38.make(case, t)
    w = Wrap(cfg, m, case["conv"])
    intact = Intact(m)
    cases = [("samples", dict(num_samples=50, seed=case["seed"])), ("samples with modes at the leaves", dict(num_samples=20, seed=case["seed"], mpe_at_leaves=True)),
             ("samples at other temperatures", dict(num_samples=20, seed=case["seed"], temperature_sums=0.7, temperature_leaves=1.5)),
             ("MPE", dict(num_samples=1, is_mpe=True))]
    if not case["conv"]:
        cases.append(("differentiable samples", dict(num_samples=20, seed=case["seed"], is_differentiable=True)))
        if cfg["K"] > 1:
            cases.append(("class samples", dict(num_samples=20, seed=case["seed"], class_index=cfg["K"] - 1)))
    for what, kw in cases:
        a = w.sample(**kw)
        with mixed():
            b = w.sample(**kw)
        t.ok(b.dtype == a.dtype and torch.equal(a, b), f"{what} depend on mixed precision although no density is evaluated")
    # given evidence the densities enter: equal up to the choices that rounding can move
    x = gen.random_states(cfg, 1, case["s"])
    mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]
    ev = x.masked_fill(mask, NAN).repeat(case["N"], 1, 1)
    a = w.sample(ev, seed=case["seed"]).reshape(ev.shape)
    with mixed():
        b = w.sample(ev, seed=case["seed"]).reshape(ev.shape)
        c = w.sample(ev, seed=case["seed"]).reshape(ev.shape)
    t.ok(torch.equal(b, c), "equal seeds give different draws in mixed precision")
    intact.check(t)
    moved = float((a != b).flatten(1).any(1).float().mean())
    # total variation of one choice is at most its largest log-density error; choices: class, repetition, one per region
    eps = 2 * float(bound(case, m, ev[:1]).max())
    lim = min(1.0, eps * (2 + nodes(case)))
    t.label("moved=0" if moved == 0 else "moved>0", "bounded" if lim < 0.5 else "unbounded")
    t.ok(moved <= lim + 6 * math.sqrt(lim / case["N"]) + 0.02, f"{moved:.2f} of the conditional draws differ in mixed precision (at most {lim:.2f} expected)")


SUBS = [
    Sub("likelihood", st_like, run_like, quick=900, desc="likelihoods, posteriors and gradients with and without autocast"),
    Sub("query", st_query, run_query, quick=900, desc="every query flavour under autocast keeps the evidence and fills within the support"),
    Sub("draws", st_draws, run_draws, quick=500, desc="seeded draws with and without autocast"),
]
