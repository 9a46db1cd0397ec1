"""Generators of model configurations (JSON-able) and builders turning them into real models of the repository."""
import math

from hypothesis import strategies as st

SEED = st.integers(0, 2**31 - 1)


# ---------------------------------------------------------------- leaves
def leaf_values(leaf):
    """Finite value set of one feature under `leaf`, or None if continuous."""
    t = leaf["type"]
    if t == "bernoulli":
        return [0, 1]
    if t == "categorical":
        return list(range(leaf["bins"]))
    if t == "binomial":
        return list(range(leaf["n"] + 1))
    return None


def domain(cfg):
    """Per-feature value sets of a model configuration (None entries are continuous)."""
    leaf = cfg["leaf"]
    if leaf["type"] == "multi":
        out = [None] * cfg["F"]
        for part in leaf["parts"]:
            for f in part["scopes"]:
                out[f] = leaf_values(part["leaf"])
        return out
    return [leaf_values(leaf)] * cfg["F"]


def is_discrete(cfg):
    return all(d is not None for d in domain(cfg))


def leaf_card(leaf):
    return leaf.get("card", 1)


@st.composite
def simple_discrete_leaf(draw, kinds=("bernoulli", "categorical", "binomial"), max_k=4):
    t = draw(st.sampled_from(kinds))
    if t == "categorical":
        return {"type": t, "bins": draw(st.integers(2, max_k))}
    if t == "binomial":
        return {"type": t, "n": draw(st.integers(1, max_k - 1))}
    return {"type": t}


@st.composite
def simple_cont_leaf(draw, kinds=("normal", "ratnormal")):
    t = draw(st.sampled_from(kinds))
    if t == "ratnormal":
        lo = draw(st.sampled_from([0.1, 0.3, 0.5]))
        hi = lo + draw(st.sampled_from([0.2, 0.6, 1.5]))
        leaf = {"type": t, "min_sigma": lo, "max_sigma": round(hi, 3)}
        m = draw(st.sampled_from([None, (-1.0, 1.0), (0.0, 1.0), (-2.0, 0.0), (0.5, 3.0)]))
        if m:
            leaf["min_mean"], leaf["max_mean"] = m
        return leaf
    return {"type": t}


@st.composite
def multi_leaf(draw, F, discrete=None, max_k=3):
    """A heterogeneous assignment of the F features to 1..3 leaf types, scopes listed in any order."""
    perm = draw(st.permutations(range(F)))
    nparts = draw(st.integers(1, min(3, F)))
    cuts = sorted(draw(st.lists(st.integers(1, F - 1), min_size=nparts - 1, max_size=nparts - 1, unique=True))) if nparts > 1 else []
    parts = []
    lo = 0
    for hi in list(cuts) + [F]:
        if discrete is True:
            l = draw(simple_discrete_leaf(max_k=max_k))
        elif discrete is False:
            l = draw(simple_cont_leaf())
        else:
            l = draw(st.one_of(simple_discrete_leaf(max_k=max_k), simple_cont_leaf()))
        parts.append({"scopes": list(perm[lo:hi]), "leaf": l})
        lo = hi
    return {"type": "multi", "parts": parts}


def leaf_class_kwargs(leaf):
    from simple_einet.layers.distributions.bernoulli import Bernoulli
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer
    from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal
    from simple_einet.layers.distributions.normal import Normal, RatNormal

    t = leaf["type"]
    if t == "bernoulli":
        return Bernoulli, {}
    if t == "categorical":
        return Categorical, {"num_bins": leaf["bins"]}
    if t == "binomial":
        return Binomial, {"total_count": leaf["n"]}
    if t == "normal":
        return Normal, {}
    if t == "ratnormal":
        kw = {k: leaf[k] for k in ("min_sigma", "max_sigma", "min_mean", "max_mean") if k in leaf}
        return RatNormal, kw
    if t == "mvn":
        return MultivariateNormal, {"cardinality": leaf["card"]}
    if t == "multi":
        return MultiDistributionLayer, {
            "scopes_to_dist": [(list(p["scopes"]), *leaf_class_kwargs(p["leaf"])) for p in leaf["parts"]]
        }
    raise KeyError(t)


# ---------------------------------------------------------------- models
STRUCTS = [("top-down", "linsum"), ("top-down", "linsum2"), ("top-down", "einsum"), ("bottom-up", "linsum")]


@st.composite
def einet_cfg(
    draw,
    leaf=None,
    kinds=("bernoulli", "categorical", "binomial"),
    structs=STRUCTS,
    max_states=4096,
    min_F=2,
    max_F=6,
    max_C=2,
    max_S=4,
    max_I=4,
    max_R=3,
    max_K=3,
    min_K=1,
    sum_gains=(0.0, 1.0, 2.5),
    leaf_gains=(0.0, 1.0, 2.5),
    dropout=(0.0,),
    with_multi=True,
    discrete=None,
    wide="",
    huge=False,
):
    """`wide` names the dimensions (S I R K C F, V = values per feature) of which one case in seven takes one far beyond its usual range
    (with `huge` also beyond 64 for einsum layers, 128 otherwise; huge="always": every case)."""
    kinds = list(kinds) + (["multi"] if with_multi and leaf is None else [])
    F = draw(st.integers(min_F, max_F))
    C = draw(st.integers(1, max_C))
    cells = F * C
    max_k = 4
    if max_states:
        while C > 1 and 2 ** (F * C) > max_states:
            C -= 1
        cells = F * C
        max_k = max(2, min(4, int(math.floor(max_states ** (1.0 / cells) + 1e-9))))
    if leaf is None:
        kind = draw(st.sampled_from(kinds))
        if kind == "multi":
            leaf = draw(multi_leaf(F, discrete=discrete if discrete is not None else True, max_k=max_k))
        elif kind in ("bernoulli", "categorical", "binomial"):
            leaf = draw(simple_discrete_leaf(kinds=(kind,), max_k=max_k))
        elif kind == "mvn":
            card = draw(st.integers(2, 3))
            F = max(F - F % card, 2 * card) if F % card else F
            leaf = {"type": "mvn", "card": card}
        else:
            leaf = draw(simple_cont_leaf(kinds=(kind,)))
    struct, layer = draw(st.sampled_from(list(structs)))
    card = leaf_card(leaf)
    big = None
    if wide and (huge == "always" or draw(st.integers(0, 6)) == 6):
        big = draw(st.sampled_from(wide))
        if big == "F" and leaf["type"] != "multi":
            F = card * draw(st.integers(64 // card, draw(st.sampled_from([150, 330, 700])) // card))
        elif big == "C":
            C = draw(st.integers(4, 8))
        elif big == "V" and leaf["type"] == "categorical":
            leaf = {"type": "categorical", "bins": draw(st.sampled_from([16, 17, 64, 300]))}
        elif big == "V" and leaf["type"] == "binomial":
            leaf = {"type": "binomial", "n": draw(st.sampled_from([15, 31, 63, 255, 300]))}
    max_depth = min(8, int(math.floor(math.log2(F // card))))
    depth = draw(st.sampled_from([0] + [d for d in range(1, max_depth + 1) for _ in range(2)]))
    cfg = {
        "F": F, "C": C, "S": draw(st.integers(1, max_S)), "I": draw(st.integers(1, max_I)),
        "R": draw(st.integers(1, max_R)), "K": draw(st.integers(min_K, max_K)), "depth": depth,
        "struct": struct, "layer": layer, "leaf": leaf, "dropout": draw(st.sampled_from(list(dropout))),
        "seed": draw(SEED), "gs": draw(st.sampled_from(list(sum_gains))), "gl": draw(st.sampled_from(list(leaf_gains))),
    }
    if big in ("S", "I", "R", "K") and huge and (huge == "always" or draw(st.integers(0, 2)) == 2):
        cfg[big] = draw(st.integers(65, 72)) if layer == "einsum" and big in "SI" else draw(st.integers(129, 136))
    elif big in ("S", "I"):
        cfg[big] = draw(st.integers(9, 20 if layer == "einsum" else 40))
    elif big in ("R", "K"):
        cfg[big] = draw(st.integers(6, 20 if big == "R" else 15))
    if big:
        cfg["wide"] = big
    return cfg


def widen(draw, case, dims):
    """One case in seven takes one of the dimensions {name: (low, high)} far beyond its usual range."""
    if draw(st.integers(0, 6)) == 6:
        k = draw(st.sampled_from(sorted(dims)))
        case[k] = draw(st.integers(*dims[k]))
        case["wide"] = k
    return case


# numbers of rows: few, and now and then beyond the usual powers of two
def rows(lo, hi):
    return st.integers(0, 7).flatmap(lambda k: st.sampled_from([65, 129, 257, 300, 513, 1025, 2049]) if k == 7 else st.integers(lo, hi))


def einet_config(cfg):
    from simple_einet.einet import EinetConfig

    cls, kw = leaf_class_kwargs(cfg["leaf"])
    return EinetConfig(
        num_features=cfg["F"], num_channels=cfg["C"], num_sums=cfg["S"], num_leaves=cfg["I"],
        num_repetitions=cfg["R"], num_classes=cfg["K"], depth=cfg["depth"], dropout=cfg["dropout"],
        leaf_type=cls, leaf_kwargs=kw, layer_type=cfg["layer"], structure=cfg["struct"],
    )


def seed_all(s):
    import random

    import numpy as np
    import torch

    random.seed(s)
    np.random.seed(s % 2**32)
    torch.manual_seed(s)


def perturb(model, seed, gs=1.0, gl=1.0):
    """Add Gaussian noise to every trainable parameter: gain gl for leaf parameters, gs for all others."""
    import torch

    g = torch.Generator().manual_seed(seed ^ 0x5EED)
    with torch.no_grad():
        for name, p in model.named_parameters():
            if not p.requires_grad:
                continue
            gain = gl if "leaf" in name.split(".")[0] or ".leaf." in name else gs
            new = p + gain * torch.randn(p.shape, generator=g)
            if seed % 3 == 0:  # the ways in which programs set parameters
                p.copy_(new)
            elif seed % 3 == 1:
                p.data.copy_(new)
            else:
                p.data = new
    return model


def used(model, x, seed):
    """One model in five has answered queries before its parameters are set: nothing may be remembered of them."""
    import random

    import numpy as np
    import torch

    if seed % 5:
        return
    state = torch.get_rng_state(), random.getstate(), np.random.get_state()
    train = model.training
    model.eval()
    ev = x.clone().float()
    ev[..., : max(1, ev.shape[-1] // 2)] = float("nan")
    for f in (lambda: model(x), lambda: model(ev), lambda: model.sample(num_samples=2), lambda: model.sample(evidence=ev), lambda: model.sample(evidence=ev, is_mpe=True),
              lambda: model.sample(num_samples=1, is_differentiable=True), lambda: model.sample(num_samples=1, return_leaf_params=True), lambda: model.sample(num_samples=1, is_mpe=True)):
        for grad in (False, True):
            try:
                with torch.set_grad_enabled(grad):
                    f()
            except Exception:  # whether a query works is judged elsewhere
                pass
    model.train(train)
    torch.set_rng_state(state[0])
    random.setstate(state[1])
    np.random.set_state(state[2])


def build(cfg, train=False):
    """A real Einet of this configuration with seeded structure and parameters (eval mode unless asked)."""
    from simple_einet.einet import Einet

    seed_all(cfg["seed"])
    m = Einet(einet_config(cfg))
    used(m, random_states(cfg, 2, 0), cfg["seed"])
    perturb(m, cfg["seed"], cfg["gs"], cfg["gl"])
    return m.train(train)


def labels(cfg):
    out = [cfg["struct"] + "/" + cfg["layer"], "leaf=" + cfg["leaf"]["type"], "R>1" if cfg["R"] > 1 else "R=1",
           *(["wide-" + cfg["wide"]] if "wide" in cfg else []),
           "K>1" if cfg["K"] > 1 else "K=1", "depth=%d" % cfg["depth"], "C>1" if cfg["C"] > 1 else "C=1"]
    groups = 2 ** cfg["depth"] if cfg["depth"] else 1
    n = cfg["F"] // leaf_card(cfg["leaf"])
    out.append("uneven" if (n % groups if cfg["struct"] == "top-down" else n != 2 ** max(1, math.ceil(math.log2(n)))) else "even")
    if cfg["struct"] == "top-down" and n == groups:
        out.append("leaf-regions-singleton")
    return out


def nontrivial(cfg):
    """More than a single product of leaves: some sum node has at least two children."""
    return cfg["I"] > 1 or cfg["R"] > 1 or (cfg["depth"] > 1 and cfg["S"] > 1)


# ---------------------------------------------------------------- data domain helpers
def all_states(cfg, limit=200000):
    """Every joint value of [C, F] as a tensor [M, C, F] (discrete models only)."""
    import torch

    dom = domain(cfg)
    cols = [torch.tensor(dom[f], dtype=torch.float32) for _ in range(cfg["C"]) for f in range(cfg["F"])]
    grid = torch.cartesian_prod(*cols) if len(cols) > 1 else cols[0].view(-1, 1)
    assert grid.shape[0] <= limit
    return grid.view(-1, cfg["C"], cfg["F"])


def random_states(cfg, n, seed, spread=1.5):
    """n random in-support inputs [n, C, F]."""
    import torch

    g = torch.Generator().manual_seed(seed)
    dom = domain(cfg)
    x = torch.empty(n, cfg["C"], cfg["F"])
    for f in range(cfg["F"]):
        if dom[f] is None:
            x[:, :, f] = spread * torch.randn(n, cfg["C"], generator=g)
        else:
            x[:, :, f] = torch.tensor(dom[f], dtype=torch.float32)[torch.randint(len(dom[f]), (n, cfg["C"]), generator=g)]
    return x


def in_support(cfg, x):
    """Elementwise: is the value finite and in the support of its feature (x is [N, C, F])."""
    import torch

    dom = domain(cfg)
    ok = torch.isfinite(x)
    for f in range(cfg["F"]):
        if dom[f] is not None:
            ok[:, :, f] &= (x[:, :, f].unsqueeze(-1) == torch.tensor(dom[f], dtype=x.dtype)).any(-1)
    return ok


def forward_chunks(model, x, **kw):
    import torch

    with torch.no_grad():
        return torch.cat([model(c, **kw) for c in x.split(8192)], dim=0)
