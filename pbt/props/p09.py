"""P09: differentiable sampling agrees with ordinary sampling and carries gradients."""
import math

import torch
from hypothesis import strategies as st

from .. import gen, ties
from .. import sampling as sm
from ..core import Sub

RULE = ("A case is an Einet configuration with seeded parameters and a differentiable query (class, evidence or neither). "
        "Non-trivial: some sum node has at least two children.")
ASSUMPTIONS = ["differentiable binomial leaves are documented to draw from a clipped Gaussian approximation: their sampling distribution is not compared",
               "statistical tests: a violation needs p < 1e-6 twice, on independent samples",
               "MPE values may differ between both paths only at ties (explanations of equal density) that rounding decides; where all weights are equal and nothing is observed they must agree"]
NAN = float("nan")
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")


# ------------------------------------------------------------ MPE values agree
@st.composite
def st_mpe(draw):
    cfg = draw(gen.einet_cfg(wide="SIRKFCV", huge=True, kinds=ALL, max_states=None, max_F=40, max_C=2, max_S=5, max_I=5, max_R=4, max_K=4, discrete=None,
                             leaf_gains=(0.5, 1.0, 3.0)))
    how = draw(st.sampled_from(["none", "evidence", "evidence", "scopes", "both"] + (["class", "list"] if cfg["K"] > 1 else [])))
    return {"cfg": cfg, "how": how, "n": draw(gen.rows(1, 6)), "p": draw(st.sampled_from([0.2, 0.6, 1.0])), "s": draw(gen.SEED),
            "scopes": draw(st.lists(st.integers(0, cfg["F"] - 1), min_size=1, max_size=6, unique=True))}


def query(m, case, x):
    cfg, n = case["cfg"], case["n"]
    how = case["how"]
    g = torch.Generator().manual_seed(case["s"])
    if how == "none":
        return dict(num_samples=n)
    if how == "class":
        return dict(num_samples=n, class_index=case["s"] % cfg["K"])
    if how == "list":
        return dict(class_index=torch.randint(cfg["K"], (n,), generator=g).tolist())
    if how == "scopes":
        return dict(evidence=x, marginalized_scopes=list(case["scopes"]))
    mask = torch.rand(x.shape, generator=g) < case["p"]
    if how == "both":
        return dict(evidence=x.masked_fill(mask, NAN), marginalized_scopes=list(case["scopes"]))
    return dict(evidence=x.masked_fill(mask, NAN))


def run_mpe(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    x = gen.random_states(cfg, case["n"], case["s"])
    kw = query(m, case, x)
    t.label(*gen.labels(cfg))
    t.label(case["how"])
    t.nontrivial(gen.nontrivial(cfg))
    a = m.sample(is_mpe=True, **kw)
    b = m.sample(is_mpe=True, is_differentiable=True, **kw)
    t.ok(a.shape == b.shape, f"shapes {tuple(a.shape)} / {tuple(b.shape)}")
    b = b.detach()
    t.ok(bool(torch.isfinite(b).all()), "differentiable MPE is not finite")
    near = ((a - b).abs() <= 1e-3 * (1 + a.abs())).flatten(1).all(1)
    if cfg["gs"] == 0 and case["how"] in ("none", "class", "list"):
        # all weights are equal and nothing is observed: both paths face the same exact ties, rounding has no part in it
        t.label("uniform")
        t.ok(bool(near.all()), lambda: f"all weights equal: differentiable MPE {b[~near][0].tolist()}, ordinary MPE {a[~near][0].tolist()}")
    for i in torch.nonzero(~near).flatten().tolist():
        pair = torch.stack([a[i], b[i]])
        if how_discrete(cfg):
            t.ok(bool(gen.in_support(cfg, snap(b[i : i + 1])).all()), f"row {i}: differentiable MPE {b[i].tolist()} is not in the support")
            pair = snap(pair)
        ll = torch.logsumexp(m(pair).double(), 1)
        tie = bool((ll[0] - ll[1]).abs() < 1e-3 + 2e-6 * ll[0].abs())
        if not tie:
            one, heads = dict(kw), None
            if case["how"] in ("evidence", "scopes", "both"):
                one["evidence"] = kw["evidence"][i : i + 1]
                heads = m(one["evidence"], marginalized_scopes=kw.get("marginalized_scopes"))
            elif case["how"] == "none":
                heads = torch.zeros(cfg["K"])
            elif case["how"] == "list":
                one["class_index"] = [kw["class_index"][i]]
            tie = ties.unsettled(m, lambda v: v.sample(is_mpe=True, **one), heads)
        t.ok(tie, f"row {i}: differentiable MPE {b[i].tolist()}, ordinary MPE {a[i].tolist()}")
        t.label("tie")
    c = m.mpe(is_differentiable=True, **kw) if case["how"] in ("evidence", "scopes", "both") else None
    if c is not None:
        t.ok(torch.allclose(c.detach(), b, atol=1e-5), "mpe(is_differentiable=True) differs from sample(is_mpe=True, is_differentiable=True)")


def how_discrete(cfg):
    return gen.is_discrete(cfg)


def snap(x):
    """One-hot arithmetic is exact only up to float rounding."""
    r = x.round()
    return torch.where((x - r).abs() < 1e-3, r, x)


# ------------------------------------------------------------ joint distribution
@st.composite
def st_joint(draw):
    kinds = ("bernoulli", "categorical")
    cfg = draw(gen.einet_cfg(wide="SIRK", kinds=kinds, with_multi=False, max_states=128, max_K=3))
    how = draw(st.sampled_from(["none", "evidence", "evidence"] + (["class", "list"] if cfg["K"] > 1 else [])))
    cells = cfg["C"] * cfg["F"]
    return {"cfg": cfg, "how": how, "k": draw(st.integers(0, cfg["K"] - 1)), "s": draw(gen.SEED),
            "mask": draw(st.lists(st.booleans(), min_size=cells, max_size=cells).filter(any)),
            "chunk": draw(st.sampled_from([None, None, None, None, 1, 2]))}


def run_joint(case, t):
    cfg = case["cfg"]
    C, F = cfg["C"], cfg["F"]
    m = gen.build(cfg)
    states = gen.all_states(cfg)
    ll = gen.forward_chunks(m, states).double()
    how = case["how"]
    t.label(*gen.labels(cfg))
    t.label(how)
    t.nontrivial(gen.nontrivial(cfg))
    if how == "evidence":
        mask = torch.tensor(case["mask"]).view(C, F)
        x = gen.random_states(cfg, 1, case["s"])
        ev = x.masked_fill(mask, NAN)
        ok = ((states == x) | mask).flatten(1).all(1)
        mix = torch.logsumexp(ll, 1).masked_fill(~ok, -math.inf)
        probs = torch.softmax(mix, 0).numpy()
        draw = lambda n, s: m.sample(evidence=ev.expand(n, -1, -1).clone(), is_differentiable=True, seed=100 + s)
    elif how in ("class", "list"):
        probs = ll[:, case["k"]].exp().numpy()
        req = lambda n: dict(num_samples=n, class_index=case["k"]) if how == "class" else dict(class_index=[case["k"]] * n)
        draw = lambda n, s: m.sample(is_differentiable=True, seed=100 + s, **req(n))
    else:
        probs = sm.head_mix(ll)
        draw = lambda n, s: m.sample(num_samples=n, is_differentiable=True, seed=100 + s)
    one = lambda n, s: snap(draw(n, s).detach())
    k = case["chunk"]
    t.label("rows=%s" % (k or "many"))
    sm.joint_test(cfg, probs, sm.in_chunks(one, k) if k else one, t, "differentiable samples" + (f" drawn {k} at a time" if k else ""), n=300 if k else 2000)


# ------------------------------------------------------------ continuous leaves: reachable trees, KS of marginals
@st.composite
def st_reach(draw):
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, max_F=32, max_C=2, max_S=4, max_I=4, max_R=4, max_K=4, leaf_gains=(0.0,),
                             wide="SIRKCF", huge=True))
    return {"cfg": cfg, "sparse": draw(st.booleans()), "drift": draw(st.sampled_from(sm.DRIFTS)), "s": draw(gen.SEED), "p": draw(st.sampled_from([0.0, 0.1, 0.5])), "mpe": draw(st.booleans()),
            "k": draw(st.sampled_from([None] + list(range(cfg["K"])))) if cfg["K"] > 1 else None}


@st.composite
def st_many(draw):
    """Layers with more children per node than a byte or a power of two would count."""
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, max_F=6, max_C=1, max_S=4, max_I=4, max_R=2, max_K=2,
                             leaf_gains=(0.0,), wide="SIR", huge="always"))
    return {"cfg": cfg, "sparse": True, "drift": draw(st.sampled_from(sm.DRIFTS)), "s": draw(gen.SEED), "p": draw(st.sampled_from([0.0, 0.1, 0.5])),
            "mpe": draw(st.booleans()), "k": None}


def run_reach(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    sm.separated_normals(m)
    if case["sparse"]:
        sm.sparse_sums(m, case["s"])
    t.label(*gen.labels(cfg))
    t.label("mpe" if case["mpe"] else "sample", "sparse" if case["sparse"] else "dense")
    t.nontrivial(gen.nontrivial(cfg) and cfg["F"] > 2)
    n = 16
    heads = None
    if case["k"] is not None:
        x = m.sample(num_samples=n, class_index=case["k"], is_mpe=case["mpe"], is_differentiable=True, seed=case["s"])
        heads = torch.full((n,), case["k"])
    elif case["p"] > 0:
        base = m.sample(num_samples=n, seed=case["s"])
        keep = torch.rand(base.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]
        seen = sm.drift(base, keep, case["drift"])
        x = m.sample(evidence=seen.masked_fill(~keep, NAN), is_mpe=case["mpe"], is_differentiable=True, seed=case["s"])
        t.ok(bool((x[keep] == seen[keep]).all()), "evidence was not kept")
        x = torch.where(keep, base, x)
    else:
        x = m.sample(num_samples=n, is_mpe=case["mpe"], is_differentiable=True, seed=case["s"])
    x = x.detach()
    ok, ll, per = sm.reachable(m, x, heads=heads)
    t.ok(bool(ok.all()), f"differentiable sample {x[~ok][:1].tolist()} cannot come from the model: log-density {ll[~ok][:1].tolist()}, a draw has about {per[~ok][:1].tolist()}")


@st.composite
def st_cont(draw):
    cfg = draw(gen.einet_cfg(kinds=("normal", "ratnormal"), discrete=False, max_states=None, max_F=4, max_C=2, leaf_gains=(0.0, 0.5)))
    return {"cfg": cfg}


def run_cont(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    cache = {}

    def sample(n, s):
        if (n, s) not in cache:
            cache[(n, s)] = m.sample(num_samples=n, is_differentiable=True, seed=s).detach()
        return cache[(n, s)]

    for c in range(cfg["C"]):
        for f in range(cfg["F"]):
            nodes, cdf = sm.cell_cdf(cfg, m, (c, f))
            sm.ks_test(nodes, cdf, lambda n, s: sample(n, s)[:, c, f].numpy(), t, f"differentiable samples of cell (c={c}, f={f})")


# ------------------------------------------------------------ gradients
@st.composite
def st_grad(draw):
    cfg = draw(gen.einet_cfg(kinds=("normal", "ratnormal", "categorical", "bernoulli", "binomial"), with_multi=False, max_states=None, max_F=12,
                             max_C=2, max_S=4, max_I=4, max_R=3, max_K=3, sum_gains=(0.0, 1.0), leaf_gains=(0.5, 1.0)))
    how = draw(st.sampled_from(["none", "evidence"] + (["class"] if cfg["K"] > 1 else [])))
    return {"cfg": cfg, "how": how, "s": draw(gen.SEED), "mpe": draw(st.booleans()), "n": 8, "p": draw(st.sampled_from([0.5, 1.0])),
            "cell": draw(st.tuples(st.integers(0, cfg["C"] - 1), st.integers(0, cfg["F"] - 1)).map(list)),
            "cells": draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 30)).map(list), min_size=3, max_size=3))}


def run_grad(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    n = case["n"]
    x0 = gen.random_states(cfg, n, case["s"])
    kw = query(m, case, x0)
    out = m.sample(is_mpe=case["mpe"], is_differentiable=True, seed=case["s"], **kw)
    t.label(*gen.labels(cfg))
    t.label(case["how"], "mpe" if case["mpe"] else "sample")
    t.nontrivial(gen.nontrivial(cfg))
    missing = kw["evidence"].isnan() if "evidence" in kw else torch.ones_like(x0, dtype=torch.bool)
    params = [(k, p) for k, p in m.named_parameters() if p.requires_grad]
    if not missing.any():
        t.reject()
    need_graph = gen.nontrivial(cfg) or cfg["leaf"]["type"] in ("normal", "ratnormal")
    if not need_graph and not out.requires_grad:
        return
    t.ok(out.requires_grad, "the differentiable sample is not connected to the parameters")
    w = torch.randn(out.shape, generator=torch.Generator().manual_seed(case["s"])) * missing
    grads = torch.autograd.grad((out * w).sum(), [p for _, p in params], retain_graph=True, allow_unused=True)
    for (k, p), g in zip(params, grads):
        t.ok(g is None or bool(torch.isfinite(g).all()), f"gradient of the sample with respect to {k} is not finite")
    leaf = cfg["leaf"]["type"]
    # sums: the straight-through gradient of every layer whose children can differ is generically non-zero
    spread = float(torch.stack([p.detach().std() if p.numel() > 1 else torch.tensor(0.0) for k, p in params if "leaf" in k]).max())
    visible = leaf in ("normal", "ratnormal") or (leaf == "binomial" and not case["mpe"])
    if visible and spread > 0.1:
        for (k, p), g in zip(params, grads):
            if "leaf" in k or k.startswith("_class"):
                continue
            children = sum_children(cfg, k, p)
            if children > 1 and bool(missing.all()) and (cfg["I"] > 1 or k.startswith("mixing")):
                t.ok(g is not None and bool((g.abs() > 0).any()), f"no gradient reaches {k} (shape {tuple(p.shape)})")
    if leaf == "normal" and not grads_via_evidence(case) and cfg["I"] > 1 and spread > 0.1:
        # the value of each single cell depends on the choice made at the sum nodes right above its leaves
        low = "layers.0.logits"
        if low in dict(params):
            for cell in case["cells"]:
                c, f = cell[0] % cfg["C"], cell[1] % cfg["F"]
                (g,) = torch.autograd.grad(out[:, c, f].sum(), dict(params)[low], retain_graph=True, allow_unused=True)
                t.ok(g is not None and bool((g.abs() > 0).any()), f"the sample of cell {(c, f)} has no gradient to the sums above its leaves")
    if leaf == "normal":
        means = [(k, p) for k, p in params if k.endswith("means")]
        t.ok(len(means) == 1, "normal leaf has no means")
        c, f = case["cell"]
        g = torch.autograd.grad((out[:, c, f] * missing[:, c, f]).sum(), means[0][1], retain_graph=True, allow_unused=True)[0]
        want = float(missing[:, c, f].sum())
        g = torch.zeros_like(means[0][1]) if g is None else g
        t.ok(abs(float(g[0, c, f].sum()) - want) < 1e-3 * (1 + want),
             f"the means of the leaves of cell {(c, f)} get total gradient {float(g[0, c, f].sum())}, {want} samples were drawn from them")
        if not grads_via_evidence(case):
            rest = g.clone()
            rest[0, c, f] = 0
            t.ok(float(rest.abs().max()) < 1e-5, f"drawing cell {(c, f)} has gradients to the means of other cells")


def grads_via_evidence(case):
    return case["how"] == "evidence"  # the branch probabilities depend on the leaf densities of the evidence


def sum_children(cfg, name, p):
    if name.startswith("mixing"):
        return p.shape[2]
    if p.dim() == 5:
        return p.shape[-1] * p.shape[-2]
    return p.shape[1]


SUBS = [
    Sub("mpe", st_mpe, run_mpe, quick=800, desc="differentiable MPE equals ordinary MPE (all leaf families, structures, evidence kinds)"),
    Sub("joint", st_joint, run_joint, quick=240, desc="Bernoulli/categorical models: joint distribution of differentiable samples, unconditional, per class, given evidence"),
    Sub("many-children", st_many, run_reach, quick=60,
        desc="layers with 65 to 136 input channels or repetitions and only a few open children per sum node: every differentiable sample stems from one induced tree"),
    Sub("reachable", st_reach, run_reach, quick=400, desc="large models with far-apart normal leaves: every differentiable sample stems from one induced tree"),
    Sub("continuous", st_cont, run_cont, quick=32, desc="normal leaves: marginals by KS"),
    Sub("gradients", st_grad, run_grad, quick=400, desc="finite, connected, unit total gradient to the means of the drawn leaves"),
]
