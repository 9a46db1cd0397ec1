"""P10: seeds make sampling reproducible, temperatures rescale as documented."""
import math
import random

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen
from .. import sampling as sm
from ..core import Sub

RULE = ("A case is an Einet configuration, a sampling query, seeds and a prior random state, or a temperature. Non-trivial: some "
        "sum node has at least two children.")
ASSUMPTIONS = ["leaf temperatures are documented for normal and categorical leaves only",
               "given evidence, every sum node samples from its tempered weights times the likelihood of the evidence below each child (at temperature one); compared for circuits with one layer of sums, several repetitions and classes",
               "statistical tests: a violation needs p < 1e-6 twice, on independent samples"]
NAN = float("nan")
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")


@st.composite
def st_seed(draw):
    cfg = draw(gen.einet_cfg(wide="SIRKC", kinds=ALL + ("mvn",), max_states=None, max_F=12, max_C=2, max_S=4, max_I=4, max_R=3, max_K=3, discrete=None,
                             structs=gen.STRUCTS))
    if cfg["leaf"]["type"] == "mvn" and cfg["struct"] == "bottom-up":
        cfg["struct"] = "top-down"
    kinds = ["plain"] + (["class", "list"] if cfg["K"] > 1 else []) + (["evidence", "scopes"] if cfg["leaf"]["type"] != "mvn" else [])
    return {
        "cfg": cfg, "kind": draw(st.sampled_from(kinds)), "n": draw(st.integers(1, 8)), "s": draw(gen.SEED),
        "seed": draw(st.one_of(st.just(0), st.integers(0, 20), st.integers(0, 2**40))), "g1": draw(gen.SEED), "g2": draw(gen.SEED),
        "opts": draw(st.sampled_from(["", "", "diff", "leaves", "temp", "mpe"])), "skip": draw(st.integers(0, 5)),
    }


def kwargs(case):
    cfg, n = case["cfg"], case["n"]
    kw = {}
    if case["kind"] == "class":
        kw = dict(num_samples=n, class_index=case["s"] % cfg["K"])
    elif case["kind"] == "list":
        kw = dict(class_index=[(case["s"] + i) % cfg["K"] for i in range(n)])
    elif case["kind"] in ("evidence", "scopes"):
        x = gen.random_states(cfg, n, case["s"])
        if case["kind"] == "evidence":
            mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < 0.7
            x = x.masked_fill(mask, NAN)
        else:
            kw["marginalized_scopes"] = list(range(0, cfg["F"], 2))
        kw["evidence"] = x
    else:
        kw = dict(num_samples=n)
    o = case["opts"]
    if o == "diff":
        kw["is_differentiable"] = True
    elif o == "leaves":
        kw["mpe_at_leaves"] = True
    elif o == "mpe":
        kw["is_mpe"] = True
    elif o == "temp":
        kw.update(temperature_leaves=0.5, temperature_sums=2.0)
    return kw


def states():
    return torch.get_rng_state(), random.getstate(), np.random.get_state()


def same_states(a, b):
    return torch.equal(a[0], b[0]) and a[1] == b[1] and a[2][0] == b[2][0] and np.array_equal(a[2][1], b[2][1]) and a[2][2:] == b[2][2:]


def run_seed(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    kw = kwargs(case)
    t.label(*gen.labels(cfg))
    t.label(case["kind"], "opts=" + case["opts"], "seed=0" if case["seed"] == 0 else "seed>0")
    t.nontrivial(gen.nontrivial(cfg))
    gen.seed_all(case["g1"])
    torch.rand(case["skip"])
    s0 = states()
    a = m.sample(seed=case["seed"], **kw).detach()
    t.ok(same_states(s0, states()), "a seeded call changed the global random state")
    gen.seed_all(case["g2"])
    torch.rand(3 * case["skip"] + 1)
    s0 = states()
    b = m.sample(seed=case["seed"], **kw).detach()
    t.ok(same_states(s0, states()), "a seeded call changed the global random state (second call)")
    t.ok(torch.equal(a, b), f"two calls with seed {case['seed']} differ in {int((a != b).sum())} of {a.numel()} entries")
    # temperature one changes nothing
    if "temperature_sums" not in kw:
        c = m.sample(seed=case["seed"], temperature_leaves=1.0, temperature_sums=1.0, **kw).detach()
        t.ok(torch.equal(a, c), "temperatures of one change the result")
    # unseeded calls are controlled by the global state and fresh
    torch.manual_seed(case["g1"])
    u1 = m.sample(**kw).detach()
    mid = torch.get_rng_state()
    u2 = m.sample(**kw).detach()
    torch.manual_seed(case["g1"])
    u3 = m.sample(**kw).detach()
    t.ok(torch.equal(u1, u3), "unseeded calls from the same global random state differ")
    torch.manual_seed(case["g1"])
    v = m.sample(seed=case["g1"], **kw).detach()
    t.ok(torch.equal(v, u1), "a seeded call differs from an unseeded one after seeding the global generator equally")
    if case["opts"] not in ("mpe", "leaves") and cfg["leaf"]["type"] in ("normal", "ratnormal"):
        hidden = kw["evidence"].isnan() if case["kind"] == "evidence" else torch.ones(case["n"], cfg["C"], cfg["F"], dtype=torch.bool)
        if case["kind"] == "scopes":
            hidden = torch.zeros_like(hidden)
            hidden[:, :, ::2] = True
        if hidden.any():
            k = int(hidden.sum()) // 5  # float32 draws may collide
            t.ok(int((u1 == u2)[hidden].sum()) <= k, "two successive unseeded calls share entries")
            other = case["seed"] + [1, 1, 1000, 2**16, 2**31][case["g1"] % 5]
            d = m.sample(seed=other, **kw).detach()
            t.ok(int((a == d)[hidden].sum()) <= k, f"seeds {case['seed']} and {other} give the same entries")
            rows = a[hidden]
            t.ok(len(torch.unique(rows)) >= len(rows) - k, "entries of one call repeat")


# ------------------------------------------------------------ temperatures
@st.composite
def st_tsum(draw):
    cfg = draw(gen.einet_cfg(wide="SIR", max_states=128, max_K=3, sum_gains=(1.0, 2.5), leaf_gains=(1.0, 2.5)))
    return {"cfg": cfg, "T": draw(st.sampled_from([0.01, 0.05, 0.2, 0.5, 0.7, 1.5, 3.0, 10.0, 100.0])), "diff": draw(st.booleans()) and cfg["leaf"]["type"] in ("bernoulli", "categorical"),
            "k": draw(st.sampled_from([None] + list(range(cfg["K"])))) if cfg["K"] > 1 else None}


def scale_sums(m, T):
    with torch.no_grad():
        for name, p in m.named_parameters():
            if name.endswith("logits") and (name.startswith("layers") or name.startswith("mixing")):
                p.div_(T)


def run_tsum(case, t):
    cfg = case["cfg"]
    m, ref = gen.build(cfg), gen.build(cfg)
    scale_sums(ref, case["T"])
    ll = gen.forward_chunks(ref, gen.all_states(cfg))
    t.label(*gen.labels(cfg))
    t.label("T=%g" % case["T"], "diff" if case["diff"] else "")
    t.nontrivial(gen.nontrivial(cfg))
    kw = {} if case["k"] is None else {"class_index": case["k"]}
    probs = sm.head_mix(ll) if case["k"] is None else ll[:, case["k"]].double().exp().numpy()
    sm.joint_test(cfg, probs, lambda n, s: m.sample(num_samples=n, temperature_sums=case["T"], is_differentiable=case["diff"], seed=s, **kw).detach().float().mul(1 << 10).round().div(1 << 10),
                  t, f"samples at sum temperature {case['T']}", n=2500)


@st.composite
def st_tev(draw):
    cfg = draw(gen.einet_cfg(wide="IR", max_states=128, max_K=3, max_F=5, sum_gains=(1.0, 2.5), leaf_gains=(1.0, 2.5)))
    cfg["depth"] = 0 if cfg["struct"] == "bottom-up" else min(cfg["depth"], 1)
    cells = cfg["C"] * cfg["F"]
    return {"cfg": cfg, "T": draw(st.sampled_from([0.01, 0.05, 0.2, 0.5, 1.5, 3.0, 30.0])), "xseed": draw(gen.SEED), "diff": draw(st.booleans()) and cfg["leaf"]["type"] in ("bernoulli", "categorical"),
            "mask": draw(st.lists(st.booleans(), min_size=cells, max_size=cells).filter(any)), "scopes": draw(st.booleans())}


def only_repetition(m, r):
    with torch.no_grad():
        w = torch.full_like(m.mixing.logits, -1e4)
        w[..., r] = 0
        m.mixing.logits.copy_(w)


def run_tev(case, t):
    cfg, T = case["cfg"], case["T"]
    C, F, R, K = cfg["C"], cfg["F"], cfg["R"], cfg["K"]
    m, ref, one = gen.build(cfg), gen.build(cfg), gen.build(cfg)
    scale_sums(ref, T)
    lw = torch.log_softmax(m.mixing.logits[0].detach().double() / T, -1) if R > 1 else torch.zeros(K, 1, dtype=torch.float64)
    states = gen.all_states(cfg)
    x = gen.random_states(cfg, 1, case["xseed"])
    mask = torch.tensor(case["mask"]).view(C, F)
    if case["scopes"]:
        sc = sorted({int(f) for f in mask.nonzero()[:, 1]})
        mask = torch.zeros_like(mask)
        mask[:, sc] = True
    ev = x.masked_fill(mask, NAN)
    sel = ((states == x) | mask).flatten(1).all(1)
    lk = m(ev)[0].detach().double()
    log_p = torch.full((len(states),), -math.inf, dtype=torch.float64)
    parts, lr = [], torch.zeros(K, R, dtype=torch.float64)
    for r in range(R):
        if R > 1:
            only_repetition(ref, r)
            only_repetition(one, r)
        lr[:, r] = one(ev)[0].detach().double()
        cond = gen.forward_chunks(ref, states[sel]).double()
        parts.append(cond - torch.logsumexp(cond, 0))
    pk = torch.log_softmax(lk, 0)
    pr = torch.log_softmax(lw + lr, 1)
    tab = torch.stack(parts)  # [R, M, K]
    log_p[sel] = torch.logsumexp((tab + pr.T[:, None, :] + pk).permute(1, 0, 2).flatten(1), 1)
    t.label(*gen.labels(cfg))
    t.label("T=%g" % T, "diff" if case["diff"] else "")
    t.nontrivial(gen.nontrivial(cfg) and not bool(mask.all()))

    def draw(n, s):
        kw = dict(evidence=ev.expand(n, -1, -1).clone(), temperature_sums=T, is_differentiable=case["diff"], seed=s)
        if case["scopes"]:
            kw.update(evidence=x.expand(n, -1, -1).clone(), marginalized_scopes=sc)
        return (m.sample(**kw).detach().float() * 1024).round() / 1024

    sm.joint_test(cfg, log_p.exp().numpy(), draw, t, f"samples given evidence at sum temperature {T}", n=2000)


@st.composite
def st_tleaf(draw):
    kind = draw(st.sampled_from(["categorical", "categorical", "normal", "multi"]))
    if kind == "multi":
        F = draw(st.integers(2, 4))
        perm = draw(st.permutations(range(F)))
        cut = draw(st.integers(1, F - 1))
        leaf = {"type": "multi", "parts": [{"scopes": list(perm[:cut]), "leaf": {"type": "categorical", "bins": 3}},
                                           {"scopes": list(perm[cut:]), "leaf": {"type": "categorical", "bins": draw(st.integers(2, 4))}}]}
        cfg = draw(gen.einet_cfg(leaf=leaf, min_F=F, max_F=F, max_C=1, max_states=256, max_K=2))
    else:
        cfg = draw(gen.einet_cfg(kinds=(kind,), with_multi=False, max_states=128 if kind == "categorical" else None, max_F=4, max_C=2,
                                 max_K=2, leaf_gains=(0.5, 1.5) if kind == "categorical" else (0.3,)))
    temps = [0.05, 0.25, 0.5, 2.0, 4.0] + ([0.01, 20.0] if gen.is_discrete(cfg) else [])
    return {"cfg": cfg, "T": draw(st.sampled_from(temps)), "diff": draw(st.booleans()), "both": draw(st.booleans())}


def run_tleaf(case, t):
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.normal import Normal

    cfg, T = case["cfg"], case["T"]
    m, ref = gen.build(cfg), gen.build(cfg)
    with torch.no_grad():
        for mod in ref.modules():
            if isinstance(mod, Categorical):
                mod.logits.div_(T)
            elif isinstance(mod, Normal):
                mod.logvar.add_(math.log(T))
    kw = {"temperature_leaves": T}
    if case["both"]:
        kw["temperature_sums"] = 2.0
        scale_sums(ref, 2.0)
    t.label(*gen.labels(cfg))
    t.label("T=%g" % T)
    t.nontrivial(gen.nontrivial(cfg))
    draw = lambda n, s: m.sample(num_samples=n, is_differentiable=case["diff"], seed=s, **kw).detach()
    if gen.is_discrete(cfg):
        ll = gen.forward_chunks(ref, gen.all_states(cfg))
        sm.joint_test(cfg, sm.head_mix(ll), lambda n, s: (draw(n, s) * 1024).round() / 1024, t, f"samples at leaf temperature {T}", n=2500)
        return
    for c in range(cfg["C"]):
        for f in range(cfg["F"]):
            nodes, cdf = sm.cell_cdf(cfg, ref, (c, f))
            sm.ks_test(nodes, cdf, lambda n, s: draw(n, s)[:, c, f].numpy(), t, f"cell {(c, f)} at leaf temperature {T}")


SUBS = [
    Sub("seeds", st_seed, run_seed, quick=900, desc="equal seeds agree bit by bit under any prior random state, which is left as found; fresh draws otherwise"),
    Sub("sum-temperature", st_tsum, run_tsum, quick=300, desc="joint distribution at a sum temperature against a model with logits divided by it"),
    Sub("evidence-temperature", st_tev, run_tev, quick=260, desc="conditional samples at a sum temperature against the tempered weights reweighted by the evidence"),
    Sub("leaf-temperature", st_tleaf, run_tleaf, quick=120, desc="joint distribution / marginals at a leaf temperature against a model with rescaled leaves"),
]
