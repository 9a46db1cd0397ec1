"""P21: returned leaf parameters belong to the leaves that generated the sample."""
import itertools
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, leaf, stats
from ..core import Sub

RULE = ("A case is a top-down Einet with random leaf parameters (no two components equal) and a query with return_leaf_params. "
        "Non-trivial: more than one leaf component and more than one reachable induced tree.")
ASSUMPTIONS = ["multivariate normal leaves expose no parameters", "bottom-up structures: see the known findings",
               "the prior over induced trees is read off the density of a twin model with the same structure and sums and far-apart, narrow normal leaves",
               "statistical tests: a violation needs p < 1e-6 twice, on independent samples"]
NAN = float("nan")


@st.composite
def st_model(draw, max_F=4, max_L=3, max_R=3, max_C=2):
    disc = draw(st.sampled_from([True, False, None]))
    cfg = draw(gen.einet_cfg(wide="IR", kinds=leaf.SIMPLE, max_states=None, max_F=max_F, max_C=max_C, max_I=max_L, max_R=max_R, max_S=3, max_K=3, discrete=disc,
                             structs=gen.STRUCTS[:3], leaf_gains=(1.0, 1.5)))
    return cfg


def base(m):
    return m.leaf.base_leaf


def leaf_params(spec, d):
    """Exposed parameters [C, F, L, R, P] of one leaf layer of a family."""
    t = spec["type"]
    with torch.no_grad():
        if t == "bernoulli":
            return d.probs[0].unsqueeze(-1).clone()
        if t == "categorical":
            return d.logits[0].clone()
        if t == "binomial":
            return d.logits[0].unsqueeze(-1).clone()
        if t == "normal":
            return torch.stack([d.means[0], d.logvar[0]], -1).clone()
        P = leaf.ref_params(spec, d)
        return torch.stack([P["mu"], P["sigma"]], -1).float()


def exposed(cfg, m):
    if cfg["leaf"]["type"] != "multi":
        return leaf_params(cfg["leaf"], base(m))
    parts = [(p["scopes"], leaf_params(p["leaf"], d)) for p, d in zip(cfg["leaf"]["parts"], base(m).dists)]
    P = max(v.shape[-1] for _, v in parts)
    out = torch.zeros(cfg["C"], cfg["F"], cfg["I"], cfg["R"], P)
    for s, v in parts:
        out[:, s, :, :, : v.shape[-1]] = v
    return out


def densities(cfg, m, x):
    """Reference log-densities [N, C, F, L, R] of x, zero where missing."""
    y = torch.where(x.isnan(), torch.zeros_like(x), x)
    if cfg["leaf"]["type"] != "multi":
        out = leaf.log_prob(cfg["leaf"], leaf.ref_params(cfg["leaf"], base(m)), y)
    else:
        out = torch.zeros(*x.shape, cfg["I"], cfg["R"], dtype=torch.float64)
        for p, d in zip(cfg["leaf"]["parts"], base(m).dists):
            out[:, :, p["scopes"]] = leaf.log_prob(p["leaf"], leaf.ref_params(p["leaf"], d), y[:, :, p["scopes"]])
    return torch.where(x.isnan()[..., None, None], torch.zeros_like(out), out)


def choices(cfg):
    """Every (repetition, component per feature) as [M, 1 + F]."""
    L, R, F = cfg["I"], cfg["R"], cfg["F"]
    return torch.tensor([(r, *c) for r in range(R) for c in itertools.product(range(L), repeat=F)])


def log_prior(cfg, m):
    """log p(choice | head) [K, M] from a twin with identifiable leaves."""
    from simple_einet.einet import Einet

    twin_cfg = dict(cfg, leaf={"type": "normal"}, C=1)
    gen.seed_all(0)
    twin = Einet(gen.einet_config(twin_cfg)).eval()
    res = twin.load_state_dict({k: v for k, v in m.state_dict().items() if "base_leaf" not in k}, strict=False)
    assert not res.unexpected_keys and all("base_leaf" in k for k in res.missing_keys)
    L, R = cfg["I"], cfg["R"]
    with torch.no_grad():
        mu = 1000.0 * torch.arange(L * R, dtype=torch.float32).reshape(L, R)
        base(twin).means.copy_(mu.expand_as(base(twin).means))
        base(twin).logvar.zero_()
    ch = choices(cfg)
    x = mu[ch[:, 1:], ch[:, :1]].unsqueeze(1)
    ll = gen.forward_chunks(twin, x).double() + 0.5 * leaf.LN2PI * cfg["F"]
    ll[ll < -1000] = -math.inf  # not a tree of the circuit
    return ll.T


def identify(cfg, m, out):
    """Index into choices(cfg) of returned parameters [N, C, F, P] (raises if they belong to no consistent choice)."""
    E = exposed(cfg, m)  # [C, F, L, R, P]
    C, F, L, R, P = E.shape
    if tuple(out.shape) != (out.shape[0], C, F, P):
        return None, f"parameters of shape {tuple(out.shape)}, expected (N, {C}, {F}, {P})"
    d = (out[:, :, :, None, None, :] - E[None]).abs()
    hit = (d <= 1e-5 * (1 + E[None].abs())).all(-1)  # [N, C, F, L, R]
    if not bool(hit.flatten(3).any(-1).all()):
        i = tuple((~hit.flatten(3).any(-1)).nonzero()[0].tolist())
        return None, f"row {i[0]} channel {i[1]} feature {i[2]}: parameters {out[i].tolist()} are those of no component of that leaf"
    both = hit.all(1)  # the same component in every channel
    if not bool(both.flatten(2).any(-1).all()):
        i = int((~both.flatten(2).any(-1)).nonzero()[0][0])
        return None, f"row {i}: the channels of a feature have parameters of different components"
    perrep = both.any(2).all(1)  # [N, R]
    if not bool(perrep.any(-1).all()):
        i = int((~perrep.any(-1)).nonzero()[0])
        return None, f"row {i}: the features have parameters from different repetitions"
    r = perrep.float().argmax(-1)
    l = both[torch.arange(len(out)), :, :, r].float().argmax(-1)  # [N, F]
    idx = r
    for f in range(F):
        idx = idx * L + l[:, f]
    return idx, None


def distinct(cfg, m):
    E = exposed(cfg, m)
    flat = E.flatten(2, 3)
    d = (flat.unsqueeze(2) - flat.unsqueeze(3)).abs().amax(-1)
    d = d + 1e9 * torch.eye(d.shape[-1])
    return d.numel() == 0 or float(d.min()) > 1e-3


# ------------------------------------------------------------ distribution over trees
@st.composite
def st_joint(draw):
    cfg = draw(st_model())
    kinds = ["plain", "evidence", "scopes"] + (["class", "list"] if cfg["K"] > 1 else [])
    return {"cfg": cfg, "kind": draw(st.sampled_from(kinds)), "diff": draw(st.booleans()), "s": draw(gen.SEED), "p": draw(st.sampled_from([0.3, 0.7])),
            "seeded": draw(st.booleans())}


def run_joint(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    if not distinct(cfg, m) or (cfg["leaf"]["type"] == "categorical" and cfg["leaf"]["bins"] < 2):
        t.reject()
    lp = log_prior(cfg, m)
    t.ok(bool(((torch.logsumexp(lp, 1)).abs() < 1e-3).all()), f"the weights of the induced trees sum to {torch.logsumexp(lp, 1).exp().tolist()}")
    t.label(*gen.labels(cfg))
    t.label(case["kind"], "differentiable" if case["diff"] else "plain-mode")
    kind = case["kind"]
    kw = dict(return_leaf_params=True, is_differentiable=case["diff"])
    K = cfg["K"]
    if kind in ("evidence", "scopes"):
        x = gen.random_states(cfg, 1, case["s"])
        if kind == "evidence":
            e = x.masked_fill(torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"], NAN)
        else:
            hide = list(range(case["s"] % 2, cfg["F"], 2))
            e = x.clone()
            e[:, :, hide] = NAN
            kw["marginalized_scopes"] = hide
        ch = choices(cfg)
        dens = densities(cfg, m, e)[0].sum(0)  # [F, L, R]
        add = torch.stack([dens[f, ch[:, 1 + f], ch[:, 0]] for f in range(cfg["F"])], 0).sum(0)
        logits = lp + add
        inp = e if kind == "evidence" else x
        probs = torch.softmax(logits.flatten(), 0).reshape(lp.shape).sum(0)
        call = lambda n, s: m.sample(evidence=inp.expand(n, -1, -1).clone(), **kw, **s)
    elif kind == "class":
        k = case["s"] % K
        probs = torch.softmax(lp[k], 0)
        call = lambda n, s: m.sample(num_samples=n, class_index=k, **kw, **s)
    elif kind == "list":
        k = case["s"] % K
        probs = torch.softmax(lp[k], 0)
        other = (k + 1) % K
        call = lambda n, s: m.sample(class_index=[k, other] * n, **kw, **s)[::2]
    else:
        probs = torch.softmax(lp, 1).mean(0)
        call = lambda n, s: m.sample(num_samples=n, **kw, **s)
    t.nontrivial(cfg["I"] > 1 and int((probs > 0.01).sum()) > 1)

    def draw(n, s):
        torch.manual_seed(case["s"] + s)
        out = call(n, {"seed": case["s"] + 11 * s} if case["seeded"] else {})
        if case["diff"]:
            t.ok(out.requires_grad, "differentiable leaf parameters carry no gradient")
        out = out.detach()
        t.ok(out.shape[0] == n, f"{out.shape[0]} rows for {n} samples")
        idx, err = identify(cfg, m, out)
        t.ok(err is None, err)
        return np.bincount(idx.numpy(), minlength=len(probs))

    ok, d = stats.two_stage(draw, probs.numpy(), 1500)
    t.ok(ok, f"{kind}: the returned parameters do not follow the distribution over the circuit's induced trees (p={d})")
    # a class per row
    if kind == "list":
        m_one = m.sample(class_index=[0, K - 1], return_leaf_params=True, is_differentiable=case["diff"]).detach()
        idx, err = identify(cfg, m, m_one)
        t.ok(err is None, err)


# ------------------------------------------------------------ MPE: the parameters of the explanation's own leaves
@st.composite
def st_mpe(draw):
    cfg = draw(st_model(max_F=9, max_L=4, max_R=3, max_C=3))
    kinds = ["plain", "evidence", "scopes"] + (["class", "list"] if cfg["K"] > 1 else [])
    return {"cfg": cfg, "kind": draw(st.sampled_from(kinds)), "diff": draw(st.booleans()), "s": draw(gen.SEED), "n": draw(st.integers(1, 4)), "p": draw(st.sampled_from([0.3, 0.7]))}


def run_mpe(case, t):
    from .p19 import picker

    cfg = case["cfg"]
    m = gen.build(cfg)
    if not distinct(cfg, m):
        t.reject()
    t.label(*gen.labels(cfg))
    t.label(case["kind"], "differentiable" if case["diff"] else "plain-mode")
    t.nontrivial(cfg["I"] > 1)
    n, C, F = case["n"], cfg["C"], cfg["F"]
    kw = dict(is_mpe=True, is_differentiable=case["diff"])
    kind = case["kind"]
    mask = torch.ones(n, C, F, dtype=torch.bool)
    if kind in ("evidence", "scopes"):
        x = gen.random_states(cfg, n, case["s"])
        if kind == "evidence":
            mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]
            kw["evidence"] = x.masked_fill(mask, NAN)
        else:
            kw["marginalized_scopes"] = list(range(case["s"] % 2, F, 2))
            mask = torch.zeros_like(mask)
            mask[:, :, kw["marginalized_scopes"]] = True
            kw["evidence"] = x
    elif kind == "class":
        kw.update(num_samples=n, class_index=case["s"] % cfg["K"])
    elif kind == "list":
        kw.update(class_index=[(case["s"] + i) % cfg["K"] for i in range(n)])
    else:
        kw.update(num_samples=n)
    value = m.sample(**kw).detach().reshape(n, C, F)
    out = m.sample(return_leaf_params=True, **kw).detach()
    again = m.sample(return_leaf_params=True, **kw).detach()
    t.ok(torch.equal(out, again), "the leaf parameters of an MPE query are not deterministic")
    E = exposed(cfg, m)
    t.ok(tuple(out.shape) == (n, C, F, E.shape[-1]), f"parameters of shape {tuple(out.shape)}, expected {(n, C, F, E.shape[-1])}")
    hit = ((out[:, :, :, None, None, :] - E[None]).abs() <= 1e-5 * (1 + E[None].abs())).all(-1)
    t.ok(bool(hit.flatten(3).any(-1).all()), "returned parameters are those of no component of their leaf")
    sel = hit.all(1)  # [N, F, L, R]
    t.ok(bool(sel.flatten(2).any(-1).all()), "the channels of a feature have parameters of different components")
    rep = sel.any(2).all(1)
    t.ok(bool(rep.any(-1).all()), "the features of a row have parameters from different repetitions")
    r = rep.float().argmax(-1)
    l = sel[torch.arange(n), :, :, r].float().argmax(-1)
    # the completed values are the modes of exactly those leaves
    def judge(spec, d, cols):
        P = leaf.ref_params(spec, d)
        pick = picker(l[:, cols], r)
        g = value[:, :, cols].double()
        vals = gen.leaf_values(spec)
        if vals is None:
            mu = pick(P["mu"])
            return (g - mu).abs() <= 1e-4 * (1 + mu.abs())
        tab = pick(torch.stack([leaf.log_pmf(spec, P, k) for k in vals], -1))
        best = tab.max(-1)[0]
        got = tab.gather(-1, g.round().long().clamp(0, len(vals) - 1).unsqueeze(-1))[..., 0]
        return got >= best - 1e-3 - 1e-5 * best.abs()

    parts = [{"scopes": list(range(F)), "leaf": cfg["leaf"]}] if cfg["leaf"]["type"] != "multi" else cfg["leaf"]["parts"]
    ds = [base(m)] if cfg["leaf"]["type"] != "multi" else list(base(m).dists)
    for p, d in zip(parts, ds):
        ok = judge(p["leaf"], d, p["scopes"]) | ~mask[:, :, p["scopes"]]
        t.ok(bool(ok.all()), f"{kind}: features {p['scopes']}: the MPE values are not the modes of the leaves whose parameters are returned")


def _bottom_up():
    """Bottom-up structures: leaf parameters of three samples (expected shape [3, 1, 4, 2], parameters of one component per feature)."""
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.normal import Normal

    torch.manual_seed(0)
    m = Einet(EinetConfig(num_features=4, depth=1, num_leaves=2, num_sums=2, num_repetitions=2, leaf_type=Normal, structure="bottom-up")).eval()
    try:
        out = m.sample(num_samples=3, return_leaf_params=True)
        return tuple(out.shape) != (3, 1, 4, 2)
    except Exception:  # noqa: BLE001
        return True


KNOWN = {"bottom-up-params": _bottom_up}

SUBS = [
    Sub("joint", st_joint, run_joint, quick=420, desc="joint distribution of the selected components against the exact distribution over induced trees, conditioned on evidence or class"),
    Sub("mpe", st_mpe, run_mpe, quick=1500, desc="MPE parameters are those of the leaves whose modes the MPE returns"),
]
