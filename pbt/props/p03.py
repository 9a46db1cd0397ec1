"""P03: every input variable enters every evaluation exactly once."""
import torch
from hypothesis import strategies as st
from torch import nn

from .. import gen
from ..core import Sub

RULE = ("A case is an Einet configuration of any size with a leaf layer whose log-densities are free inputs (a table), seeded "
        "weights and table. Non-trivial: some sum node has at least two children and there are at least two leaf regions.")
ASSUMPTIONS = ["the table leaf is a leaf type of the harness plugged in through the public leaf_type parameter"]


def table_leaf():
    from simple_einet.layers.distributions.abstract_leaf import AbstractLeaf

    class TableLeaf(AbstractLeaf):
        """Leaf whose log-densities are set from outside: `table` [N, C, F, L, R]."""

        def __init__(self, num_features, num_channels, num_leaves, num_repetitions):
            super().__init__(num_features, num_channels, num_leaves, num_repetitions)
            self.anchor = nn.Parameter(torch.zeros(1))
            self.table = None

        def forward(self, x, marginalized_scopes=None):
            return self.table * 1.0

        def _get_base_distribution(self, ctx=None):
            raise NotImplementedError

    return TableLeaf


def make(cfg, reseed=True):
    from simple_einet.einet import Einet, EinetConfig

    cls = table_leaf()
    if reseed:
        gen.seed_all(cfg["seed"])
    m = Einet(EinetConfig(
        num_features=cfg["F"], num_channels=cfg["C"], num_sums=cfg["S"], num_leaves=cfg["I"], num_repetitions=cfg["R"],
        num_classes=cfg["K"], depth=cfg["depth"], dropout=0.0, leaf_type=cls, layer_type=cfg["layer"], structure=cfg["struct"]))
    gen.perturb(m, cfg["seed"], cfg["gs"], 0.0)
    leaf = [x for x in m.modules() if isinstance(x, cls)][0]
    return m.eval(), leaf


@st.composite
def st_case(draw, max_F=70):
    cfg = draw(gen.einet_cfg(wide="SIRKCF", huge=True, leaf={"type": "bernoulli"}, max_states=None, max_F=max_F, max_C=3, max_S=5, max_I=5, max_R=4,
                             max_K=4, sum_gains=(0.0, 1.0, 4.0)))
    return {"cfg": cfg, "tseed": draw(gen.SEED), "spread": draw(st.sampled_from([0.5, 3.0, 15.0])),
            "f": draw(st.integers(0, cfg["F"] - 1)), "c": draw(st.integers(0, cfg["C"] - 1)),
            "delta": draw(st.sampled_from([-300.0, -2.5, 1.0, 40.0, -1e5]))}


def run(case, t):
    cfg = case["cfg"]
    m, leaf = make(cfg)
    g = torch.Generator().manual_seed(case["tseed"])
    N = 2
    tab = case["spread"] * torch.randn(N, cfg["C"], cfg["F"], cfg["I"], cfg["R"], generator=g)
    tab.requires_grad_(True)
    leaf.table = tab
    x = torch.zeros(N, cfg["C"], cfg["F"])
    out = m(x)
    t.ok(out.shape == (N, cfg["K"]) and bool(torch.isfinite(out).all()), f"output {out.tolist()}")
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg) and cfg["depth"] > 0)
    for k in range(cfg["K"]):
        (gr,) = torch.autograd.grad(out[:, k].sum(), tab, retain_graph=True)
        t.ok(bool((gr >= -1e-5).all()), f"negative sensitivity {gr.min().item()} of head {k}")
        flow = gr.sum(dim=(3, 4))  # [N, C, F]
        dev = (flow - 1).abs()
        t.ok(bool(dev.max() < 2e-3), f"head {k}: total sensitivity to variable (c, f) {divmod(int(dev[0].flatten().argmax()), cfg['F'])} "
             f"is {flow.flatten()[dev.flatten().argmax()].item()}, expected 1")
        # all features of one repetition carry the same share: one induced tree uses a single repetition
        rep = gr.sum(dim=3)
        t.ok(bool(((rep - rep[:, :1, :1]).abs() < 2e-3).all()), f"head {k}: variables are split differently over the repetitions")
    base = out.detach()
    with torch.no_grad():
        shifted = tab.clone()
        shifted[:, case["c"], case["f"]] += case["delta"]
        leaf.table = shifted
        got = m(x)
    want = base + case["delta"]
    t.ok(bool(((got - want).abs() < 1e-3 + 2e-5 * (want.abs() + base.abs())).all()),
         f"adding {case['delta']} to variable (c={case['c']}, f={case['f']}) moves the heads by {(got - base).tolist()}")


SUBS = [Sub("flow", st_case, run, quick=900,
            desc="sum over components and repetitions of d log p / d leaf log-density is one for every (channel, feature), head and row; shifting one variable shifts every head")]
