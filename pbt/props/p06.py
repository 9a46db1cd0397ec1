"""P06: samples given evidence follow the conditional distribution."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, stats
from .. import sampling as sm
from ..core import Sub

RULE = ("A case is an Einet configuration with seeded parameters, evidence rows and per-row missing patterns (or "
        "marginalised features). Non-trivial: something is observed and something missing, and a sum node has two children.")
ASSUMPTIONS = ["statistical tests: a violation needs p < 1e-6 on one sample and again on an independent sample four times as large"]
NAN = float("nan")


@st.composite
def st_joint(draw):
    cfg = draw(gen.einet_cfg(wide="SIRK", max_states=256, max_K=3))
    cells = cfg["C"] * cfg["F"]
    n = draw(st.integers(1, 3))
    how = draw(st.sampled_from(["nan", "nan", "scopes", "both"]))
    masks = draw(st.lists(st.lists(st.booleans(), min_size=cells, max_size=cells), min_size=n, max_size=n))
    scopes = draw(st.lists(st.integers(0, cfg["F"] - 1), min_size=1, unique=True))
    return {"cfg": cfg, "xseed": draw(gen.SEED), "how": how, "masks": masks, "scopes": scopes,
            "layout": draw(st.sampled_from(["3d", "2d"])) if cfg["C"] == 1 else "3d"}


def run_joint(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    C, F = cfg["C"], cfg["F"]
    states = gen.all_states(cfg)
    full = torch.logsumexp(gen.forward_chunks(m, states).double(), 1)
    n = len(case["masks"])
    x = gen.random_states(cfg, n, case["xseed"])
    if case["how"] == "nan":
        mask = torch.tensor(case["masks"]).view(n, C, F)
    else:
        mask = torch.zeros(n, C, F, dtype=torch.bool)
        if case["how"] == "both":
            mask |= torch.tensor(case["masks"]).view(n, C, F)
        mask[:, :, case["scopes"]] = True
    t.label(*gen.labels(cfg))
    t.label(case["how"])
    fm = mask.flatten(1)
    t.nontrivial(gen.nontrivial(cfg) and bool((fm.any(1) & ~fm.all(1)).any()))
    probs = []
    for i in range(n):
        sel = ((states == x[i]) | mask[i]).flatten(1).all(1)
        p = torch.zeros(len(states), dtype=torch.float64)
        p[sel] = torch.softmax(full[sel], 0)
        probs.append(p.numpy())
    cache = {}

    def batch(k, s):
        if (k, s) in cache:
            return cache[(k, s)]
        order = torch.randperm(n * k, generator=torch.Generator().manual_seed(s + 5))
        row = torch.arange(n).repeat_interleave(k)[order]
        ev = x[row].clone()
        kw = {}
        if case["how"] == "nan":
            ev[mask[row]] = NAN
        else:
            if case["how"] == "both":
                ev[torch.tensor(case["masks"]).view(n, C, F)[row]] = NAN
            kw["marginalized_scopes"] = list(case["scopes"])
        if case["layout"] == "2d":
            ev = ev.squeeze(1)
        out = m.sample(evidence=ev, seed=300 + s, **kw)
        t.ok(out.shape == ev.shape, f"result shape {tuple(out.shape)} for evidence {tuple(ev.shape)}")
        cache[(k, s)] = [out.view(-1, C, F)[row == i] for i in range(n)]
        return cache[(k, s)]

    for i in range(n):
        sm.joint_test(cfg, probs[i], lambda k, s, i=i: batch(k, s)[i], t, f"conditional samples of evidence row {i}", n=1500)


@st.composite
def st_few(draw):
    """The same conditional distribution, from queries with one, two or three rows of evidence."""
    case = draw(st_joint())
    case["chunk"] = draw(st.sampled_from([1, 1, 2, 3]))
    case["masks"] = case["masks"][:1]
    return case


def run_few(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    C, F = cfg["C"], cfg["F"]
    states = gen.all_states(cfg)
    full = torch.logsumexp(gen.forward_chunks(m, states).double(), 1)
    x = gen.random_states(cfg, 1, case["xseed"])
    mask, hide, kw = torch.zeros(1, C, F, dtype=torch.bool), torch.zeros(1, C, F, dtype=torch.bool), {}
    if case["how"] in ("nan", "both"):
        hide |= torch.tensor(case["masks"]).view(1, C, F)
        mask |= hide
    if case["how"] in ("scopes", "both"):
        mask[:, :, case["scopes"]] = True
        kw["marginalized_scopes"] = list(case["scopes"])
    t.label(*gen.labels(cfg))
    t.label(case["how"], "rows=%d" % case["chunk"])
    t.nontrivial(gen.nontrivial(cfg) and bool(mask.any()) and not bool(mask.all()))
    sel = ((states == x) | mask).flatten(1).all(1)
    p = torch.zeros(len(states), dtype=torch.float64)
    p[sel] = torch.softmax(full[sel], 0)
    ev = x.masked_fill(hide, NAN)
    if case["layout"] == "2d":
        ev = ev.squeeze(1)

    def draw(k, s):
        e = ev.repeat(k, *[1] * (ev.dim() - 1))
        out = m.sample(evidence=e, seed=s, **kw)
        t.ok(out.shape == e.shape, f"result shape {tuple(out.shape)} for evidence {tuple(e.shape)}")
        return out.view(-1, C, F)

    sm.joint_test(cfg, p.numpy(), sm.in_chunks(draw, case["chunk"]), t, f"conditional samples drawn {case['chunk']} at a time", n=300)


@st.composite
def st_pairs(draw):
    cfg = draw(gen.einet_cfg(wide="SIR", max_states=None, min_F=4, max_F=18, max_C=2, max_I=5, max_S=5, max_R=3))
    cells = st.tuples(st.integers(0, cfg["C"] - 1), st.integers(0, cfg["F"] - 1))
    pairs = draw(st.lists(st.tuples(cells, cells).filter(lambda p: p[0] != p[1]), min_size=3, max_size=7, unique=True))
    return {"cfg": cfg, "pairs": [[list(a), list(b)] for a, b in pairs], "p": draw(st.sampled_from([0.2, 0.5, 0.8])), "xseed": draw(gen.SEED)}


def run_pairs(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    t.label(*gen.labels(cfg))
    pairs = [(tuple(a), tuple(b)) for a, b in case["pairs"]]
    x = gen.random_states(cfg, 1, case["xseed"])
    keep = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["xseed"] + 1)) < case["p"]
    for a, b in pairs:
        keep[0, a[0], a[1]] = keep[0, b[0], b[1]] = False
    ev = x.masked_fill(~keep, NAN)
    t.nontrivial(gen.nontrivial(cfg) and bool(keep.any()))
    sm.pair_test(cfg, m, pairs, lambda n, s: m.sample(evidence=ev.expand(n, -1, -1).clone(), seed=s + 60), t,
                 "conditional samples", evidence=ev[0], n=2500)


@st.composite
def st_cont(draw):
    cfg = draw(gen.einet_cfg(kinds=("normal", "ratnormal"), discrete=False, max_states=None, max_F=6, max_C=2, leaf_gains=(0.0, 0.5)))
    return {"cfg": cfg, "p": draw(st.sampled_from([0.3, 0.6])), "xseed": draw(gen.SEED)}


def run_cont(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    t.label(*gen.labels(cfg))
    x = gen.random_states(cfg, 1, case["xseed"])
    g = torch.Generator().manual_seed(case["xseed"] + 1)
    keep = torch.rand(x.shape, generator=g) < case["p"]
    keep.view(-1)[int(torch.randint(keep.numel(), (1,), generator=g))] = False
    ev = x.masked_fill(~keep, NAN)
    t.nontrivial(gen.nontrivial(cfg) and bool(keep.any()))
    cache = {}

    def sample(n, s):
        if (n, s) not in cache:
            o = m.sample(evidence=ev.expand(n, -1, -1).clone(), seed=s + 60)
            t.ok(tuple(o.shape) == (n, cfg["C"], cfg["F"]) and bool((o[:, keep[0]] == x[0][keep[0]]).all()), "evidence was not kept")
            cache[(n, s)] = o
        return cache[(n, s)]

    cells = [(c, f) for c in range(cfg["C"]) for f in range(cfg["F"]) if not keep[0, c, f]]
    for c, f in cells:
        nodes, cdf = sm.cell_cdf(cfg, m, (c, f), evidence=ev[0])
        sm.ks_test(nodes, cdf, lambda n, s: sample(n, s)[:, c, f].numpy(), t, f"missing cell (c={c}, f={f})")


@st.composite
def st_reach(draw):
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, max_F=40, max_C=2, max_S=5, max_I=5, max_R=4, max_K=4,
                             leaf_gains=(0.0,), wide="SIRKCF", huge=True))
    return {"cfg": cfg, "p": draw(st.sampled_from([0.1, 0.3, 0.6, 0.9])), "s": draw(gen.SEED), "sparse": draw(st.booleans()),
            "drift": draw(st.sampled_from(sm.DRIFTS))}


@st.composite
def st_many(draw):
    """Layers with more children per node than a byte or a power of two would count."""
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, max_F=6, max_C=1, max_S=4, max_I=4, max_R=2, max_K=2,
                             leaf_gains=(0.0,), wide="SIRK", huge="always"))
    if cfg["K"] > 4:
        cfg["R"] = max(cfg["R"], 2)
    return {"cfg": cfg, "p": draw(st.sampled_from([0.1, 0.3, 0.6])), "s": draw(gen.SEED), "sparse": True, "drift": draw(st.sampled_from(sm.DRIFTS))}


def run_reach(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    sm.separated_normals(m)
    if case["sparse"]:
        sm.sparse_sums(m, case["s"])
    t.label(*gen.labels(cfg))
    t.label("sparse" if case["sparse"] else "dense", f"drift={case['drift']:g}")
    n = 16
    base = m.sample(num_samples=n, seed=case["s"])
    keep = torch.rand(base.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]
    seen = sm.drift(base, keep, case["drift"])
    out = m.sample(evidence=seen.masked_fill(~keep, NAN), seed=case["s"] + 1)
    t.nontrivial(gen.nontrivial(cfg) and bool(keep.any()) and not bool(keep.all()))
    t.ok(bool((out[keep] == seen[keep]).all()), "evidence was not kept")
    # observed values far from every leaf: those of the tree they were drawn from still explain them best by hundreds of nats
    out = torch.where(keep, base, out)
    ok, ll, per = sm.reachable(m, out)
    t.ok(bool(ok.all()), f"completion {out[~ok][:1].tolist()} is impossible under the model: log-density {ll[~ok][:1].tolist()}, a draw has about {per[~ok][:1].tolist()}")


@st.composite
def st_class(draw):
    """Several classes, evidence that favours one of them: the drawn class must follow the posterior."""
    cfg = draw(gen.einet_cfg(max_states=256, min_K=2, max_K=4, sum_gains=(1.0, 2.5), leaf_gains=(1.0, 2.5)))
    if draw(st.integers(0, 3)) == 0:
        cfg["K"] = draw(st.integers(8, 20))
    return {"cfg": cfg, "xseed": draw(gen.SEED), "how": "nan", "scopes": [0], "layout": "3d",
            "masks": [[bool(b) for b in draw(st.lists(st.booleans(), min_size=cfg["C"] * cfg["F"], max_size=cfg["C"] * cfg["F"]))]]}


@st.composite
def st_mvn(draw):
    F = 2 * draw(st.integers(2, 5))
    cfg = draw(gen.einet_cfg(leaf={"type": "mvn", "card": 2}, min_F=F, max_F=F, max_C=1, max_states=None, max_K=2, structs=gen.STRUCTS[:3],
                             leaf_gains=(0.5,)))
    return {"cfg": cfg, "xseed": draw(gen.SEED), "group": draw(st.integers(0, F // 2 - 1)), "tensor": draw(st.booleans())}


def run_mvn(case, t):
    """One whole group of a multivariate leaf is missing: first and second moments of what is filled in, against quadrature."""
    cfg, F, q = case["cfg"], case["cfg"]["F"], case["group"]
    m = gen.build(cfg)
    with torch.no_grad():
        for k, p in m.named_parameters():
            if p.requires_grad and k.startswith("leaf"):
                p.clamp_(-0.45, 0.45) if "diag" in k else p.clamp_(-1.5, 1.5)
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    x = 0.7 * gen.random_states(cfg, 1, case["xseed"])
    sc = [2 * q, 2 * q + 1]
    h = 0.2
    a = torch.arange(-7.0, 7.0 + h / 2, h)
    g = torch.cartesian_prod(a, a)
    xs = x.repeat(len(g), 1, 1)
    xs[:, 0, sc] = g
    w = torch.softmax(torch.logsumexp(gen.forward_chunks(m, xs).double(), 1), 0)
    feats = lambda v: torch.stack([v[:, 0], v[:, 1], v[:, 0] ** 2, v[:, 1] ** 2, v[:, 0] * v[:, 1]], 1)
    f = feats(g.double())
    mean = (w[:, None] * f).sum(0)
    var = (w[:, None] * (f - mean) ** 2).sum(0)

    def z(n, s):
        ev = x.repeat(n, 1, 1)
        with torch.no_grad():
            out = m.sample(evidence=ev, marginalized_scopes=torch.tensor(sc) if case["tensor"] else sc, seed=s)
        return (feats(out[:, 0, sc].double()).mean(0) - mean) / (var / n).sqrt()

    if z(3000, 1).abs().max() > 6:
        z2 = z(12000, 2)
        t.ok(bool(z2.abs().max() < 6), f"moments of the filled group {sc} are off by {z2.tolist()} standard errors")
    t.checks += 1


@st.composite
def st_modes(draw):
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, max_F=6, max_C=2, leaf_gains=(0.0,)))
    return {"cfg": cfg, "p": draw(st.sampled_from([0.2, 0.5, 0.8])), "s": draw(gen.SEED), "diff": draw(st.booleans()), "n": draw(st.integers(1, 3))}


def run_modes(case, t):
    """With modes at the leaves the branches are still drawn with their posterior weights, row by row."""
    cfg = case["cfg"]
    m = gen.build(cfg)
    sm.separated_normals(m)
    t.label(*gen.labels(cfg))
    t.label("differentiable" if case["diff"] else "index")
    n = case["n"]
    base = m.sample(num_samples=n, seed=case["s"], mpe_at_leaves=True)
    keep = torch.rand(base.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]
    cache = {}

    def batch(k, s):
        if (k, s) not in cache:
            row = torch.arange(n).repeat_interleave(k)[torch.randperm(n * k, generator=torch.Generator().manual_seed(s))]
            ev = base.masked_fill(~keep, NAN)[row]
            out = m.sample(evidence=ev, mpe_at_leaves=True, seed=s, is_differentiable=case["diff"]).detach()
            cache[(k, s)] = [out[row == i] for i in range(n)]
        return cache[(k, s)]

    best = 0
    for i in range(n):
        best = max(best, sm.mode_test(m, lambda k, s: batch(k, s)[i], t, f"row {i}, modes at the leaves", base=base[i], keep=keep[i]))
    t.nontrivial(gen.nontrivial(cfg) and best > 1)


SUBS = [
    Sub("joint", st_joint, run_joint, quick=500,
        desc="discrete models: 1-3 evidence rows with own missing cells, shuffled in one batch; joint frequencies against the exact conditional"),
    Sub("few-rows", st_few, run_few, quick=80, desc="joint frequencies over many queries with one to three rows of evidence each"),
    Sub("class-posterior", st_class, run_joint, quick=150, desc="the same for models with several classes and sharp weights"),
    Sub("pairs", st_pairs, run_pairs, quick=80, desc="larger discrete models: pairwise conditionals against exact tables"),
    Sub("continuous", st_cont, run_cont, quick=80, desc="normal leaves: conditional CDF of every missing cell by KS"),
    Sub("many-children", st_many, run_reach, quick=60,
        desc="layers with 65 to 136 input channels or repetitions and only a few open children per sum node: every completion must be reachable"),
    Sub("leaf-modes", st_modes, run_modes, quick=100, desc="modes at the leaves: combinations of leaf modes are drawn with the posterior weights of their branches"),
    Sub("reachable", st_reach, run_reach, quick=300,
        desc="large models with far-apart narrow normals: completions of partially hidden samples must be possible under the model"),
    Sub("mvn-groups", st_mvn, run_mvn, quick=40, desc="multivariate normal leaves, one group missing: first and second moments against quadrature"),
]
