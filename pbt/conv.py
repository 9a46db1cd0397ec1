"""Generators and builders of convolutional circuits."""
import torch
from hypothesis import strategies as st

from . import gen


@st.composite
def conv_cfg(draw, kinds=("bernoulli", "categorical", "binomial"), max_cells=9, max_states=4096, max_ch=4, max_L=3, max_C=2,
             gains=(0.0, 1.0, 2.5), wide=True):
    """max_cells bounds H*W*C of the enumerable circuits (None: larger images)."""
    big = max_cells is None
    struct = draw(st.sampled_from(["bottom-up", "top-down"]))
    C = draw(st.sampled_from([c for c in (1, 2, 1, 3) if c <= max_C]))
    lim = (max_cells // C) if not big else 400
    Ls = [1] + [l for l in range(2, max_L + 1) for _ in range(2)]
    if struct == "bottom-up":
        k = draw(st.sampled_from([2, 1, 2, 3]))
        L = draw(st.sampled_from([l for l in Ls if (k ** (l - 1)) ** 2 <= lim]))
        base = k ** (L - 1)
    else:
        k = draw(st.sampled_from([2, 1, 3]))
        if lim < 4:
            C, lim = 1, lim * C
        L = draw(st.sampled_from([l for l in Ls if (2**l) ** 2 <= lim]))
        base = 2**L
    h = base * draw(st.integers(1, 3))
    while h > base and h * base > lim:
        h -= base
    w = base * draw(st.integers(1, 3))
    while w > base and h * w > lim:
        w -= base
    cells = h * w * C
    max_k = 4
    if max_states:
        max_k = max(2, min(4, int(max_states ** (1.0 / cells) + 1e-9)))
    kind = draw(st.sampled_from(list(kinds)))
    if kind in ("bernoulli", "categorical", "binomial"):
        leaf = draw(gen.simple_discrete_leaf(kinds=(kind,), max_k=max_k))
    else:
        leaf = draw(gen.simple_cont_leaf(kinds=(kind,)))
    channels = [draw(st.integers(1, max_ch)) for _ in range(L)]
    if wide and draw(st.integers(0, 6)) == 6:
        if not max_states and draw(st.booleans()):
            C = draw(st.integers(4, 8))
        else:
            channels[draw(st.integers(0, L - 1))] = draw(st.integers(6, 24))
    return {
        "struct": struct, "k": k, "channels": channels, "H": h, "W": w, "C": C, "F": h * w,
        "order": draw(st.sampled_from(["sum-prod", "prod-sum"])), "leaf": leaf, "seed": draw(gen.SEED),
        "gs": draw(st.sampled_from(list(gains))), "gl": draw(st.sampled_from(list(gains))), "K": 1,
    }


def build(cfg, leaf_type=None, leaf_kw=None):
    from simple_einet.conv_pc import ConvPc, ConvPcConfig
    from simple_einet.data import Shape

    cls, kw = gen.leaf_class_kwargs(cfg["leaf"]) if leaf_type is None else (leaf_type, leaf_kw or {})
    gen.seed_all(cfg["seed"])
    m = ConvPc(ConvPcConfig(channels=list(cfg["channels"]), kernel_size=cfg["k"], num_channels=cfg["C"], leaf_type=cls, leaf_kwargs=kw,
                            structure=cfg["struct"], order=cfg["order"]), Shape(cfg["C"], cfg["H"], cfg["W"]))
    if leaf_type is None:
        gen.used(m, gen.random_states(cfg, 2, 0).reshape(2, cfg["C"], cfg["H"], cfg["W"]), cfg["seed"])
    gen.perturb(m, cfg["seed"], cfg["gs"], cfg["gl"])
    return m.eval()


class Flat:
    """A ConvPc seen as a model over [N, C, F] with one head (the interface of the shared oracles)."""

    def __init__(self, cfg, m):
        self.cfg, self.m = cfg, m

    def img(self, x):
        return x.reshape(-1, self.cfg["C"], self.cfg["H"], self.cfg["W"])

    def modules(self):
        return self.m.modules()

    def __call__(self, x):
        return self.m(self.img(x)).view(-1, 1)

    def sample(self, *a, **kw):
        if kw.get("evidence") is not None:
            kw["evidence"] = self.img(kw["evidence"])
        out = self.m.sample(*a, **kw).detach()
        want = (out.shape[0], self.cfg["C"], self.cfg["H"], self.cfg["W"])
        assert tuple(out.shape) == want, f"sample shape {tuple(out.shape)}, expected {want}"
        return out.reshape(out.shape[0], self.cfg["C"], -1)


def labels(cfg):
    return [cfg["struct"], cfg["order"], "k=%d" % cfg["k"], "levels=%d" % len(cfg["channels"]), "leaf=" + cfg["leaf"]["type"],
            "C>1" if cfg["C"] > 1 else "C=1", "one-leaf" if cfg["channels"][0] == 1 else "many-leaves",
            "square" if cfg["H"] == cfg["W"] else "rectangular"]


def nontrivial(cfg):
    return max(cfg["channels"]) > 1 and cfg["F"] > 1
