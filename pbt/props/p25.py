"""P25: convolutional circuits sample, condition and explain as their density says."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import conv, gen, stats
from .. import sampling as sm
from ..core import Sub
from .p05 import cont_pair_counts
from .p10 import same_states, states

RULE = ("A case is a ConvPc configuration with seeded parameters and a query (plain, evidence with a missing pattern, MPE, temperatures, "
        "seeds). Non-trivial: some layer has more than one channel and there is more than one pixel.")
ASSUMPTIONS = ["statistical tests: a violation needs p < 1e-6 on one sample and again on an independent sample four times as large",
               "ConvPc always samples differentiably; binomial leaves then use a documented clipped Gaussian approximation, so only the range of their samples is checked",
               "completions are only predicted where one completion dominates"]
NAN = float("nan")
EXACT = ("bernoulli", "categorical")
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")


def grid(x):
    """Straight-through one-hot routing leaves rounding dust of 1e-7 on discrete values."""
    r = x.round()
    return torch.where((x - r).abs() < 1e-4, r, x)


@st.composite
def st_joint(draw):
    cfg = draw(conv.conv_cfg(kinds=EXACT, max_cells=8, max_states=256))
    return {"cfg": cfg, "useed": draw(st.booleans()), "chunk": draw(st.sampled_from([None, None, None, None, 1, 2]))}


def run_joint(case, t):
    cfg = case["cfg"]
    m = conv.Flat(cfg, conv.build(cfg))
    t.label(*conv.labels(cfg))
    t.nontrivial(conv.nontrivial(cfg))
    probs = gen.forward_chunks(m, gen.all_states(cfg)).double()[:, 0].exp().numpy()

    def draw(n, s):
        if case["useed"]:
            return grid(m.sample(num_samples=n, seed=s))
        torch.manual_seed(s + 10)
        return grid(m.sample(n))

    k = case["chunk"]
    t.label("rows=%s" % (k or "many"))
    sm.joint_test(cfg, probs, sm.in_chunks(draw, k) if k else draw, t, "samples" + (f" drawn {k} at a time" if k else ""), n=300 if k else 2000)


@st.composite
def st_cond(draw):
    cfg = draw(conv.conv_cfg(kinds=EXACT, max_cells=8, max_states=256))
    n = draw(st.integers(1, 3))
    cells = cfg["C"] * cfg["F"]
    return {"cfg": cfg, "xseed": draw(gen.SEED), "how": draw(st.sampled_from(["nan", "nan", "scopes", "both"])),
            "masks": draw(st.lists(st.lists(st.booleans(), min_size=cells, max_size=cells), min_size=n, max_size=n)),
            "scopes": draw(st.lists(st.integers(0, cfg["F"] - 1), min_size=1, unique=True))}


def run_cond(case, t):
    cfg = case["cfg"]
    m = conv.Flat(cfg, conv.build(cfg))
    C, F = cfg["C"], cfg["F"]
    states_ = gen.all_states(cfg)
    full = gen.forward_chunks(m, states_).double()[:, 0]
    n = len(case["masks"])
    x = gen.random_states(cfg, n, case["xseed"])
    if case["how"] == "nan":
        mask = torch.tensor(case["masks"]).view(n, C, F)
    else:
        mask = torch.zeros(n, C, F, dtype=torch.bool)
        if case["how"] == "both":
            mask |= torch.tensor(case["masks"]).view(n, C, F)
        mask[:, :, case["scopes"]] = True
    fm = mask.flatten(1)
    t.label(*conv.labels(cfg), case["how"])
    t.nontrivial(conv.nontrivial(cfg) and bool((fm.any(1) & ~fm.all(1)).any()))
    cache = {}

    def batch(k, s):
        if (k, s) not in cache:
            row = torch.arange(n).repeat_interleave(k)[torch.randperm(n * k, generator=torch.Generator().manual_seed(s))]
            ev = x[row].clone()
            kw = {}
            if case["how"] == "nan":
                ev[mask[row]] = NAN
            else:
                if case["how"] == "both":
                    ev[torch.tensor(case["masks"]).view(n, C, F)[row]] = NAN
                kw["marginalized_scopes"] = list(case["scopes"])
            out = m.sample(evidence=ev, seed=s + 3, **kw)
            cache[(k, s)] = [grid(out[row == i]) for i in range(n)]
        return cache[(k, s)]

    for i in range(n):
        sel = ((states_ == x[i]) | mask[i]).flatten(1).all(1)
        p = torch.zeros(len(states_), dtype=torch.float64)
        p[sel] = torch.softmax(full[sel], 0)
        sm.joint_test(cfg, p.numpy(), lambda k, s, i=i: batch(k, s)[i], t, f"conditional samples of row {i}", n=1500)


@st.composite
def st_cont(draw):
    cfg = draw(conv.conv_cfg(kinds=("normal", "ratnormal"), max_cells=9, max_states=None, gains=(0.0, 0.5)))
    cfg["gs"] = draw(st.sampled_from([0.5, 2.0]))
    return {"cfg": cfg, "s": draw(gen.SEED), "ev": draw(st.booleans())}


def run_cont(case, t):
    cfg = case["cfg"]
    m = conv.Flat(cfg, conv.build(cfg))
    t.label(*conv.labels(cfg), "evidence" if case["ev"] else "plain")
    t.nontrivial(conv.nontrivial(cfg))
    C, F = cfg["C"], cfg["F"]
    cells = [(c, f) for c in range(C) for f in range(F)]
    ev = None
    if case["ev"] and len(cells) > 1:
        x = gen.random_states(cfg, 1, case["s"])
        keep = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < 0.5
        keep[0, 0, 0] = False
        ev = x.masked_fill(~keep, NAN)[0]
        cells = [(c, f) for c, f in cells if not keep[0, c, f]]
    cache = {}

    def sample(n, s):
        if (n, s) not in cache:
            cache[(n, s)] = m.sample(num_samples=n, seed=s) if ev is None else m.sample(evidence=ev.expand(n, -1, -1).clone(), seed=s)
        return cache[(n, s)]

    for c, f in cells:
        nodes, cdf = sm.cell_cdf(cfg, m, (c, f), evidence=ev)
        sm.ks_test(nodes, cdf, lambda n, s: sample(n, s)[:, c, f].numpy(), t, f"pixel (c={c}, f={f})")
    if len(cells) > 1:
        g = np.random.RandomState(case["s"])
        a, b = [cells[i] for i in g.choice(len(cells), 2, replace=False)]
        nodes, P = sm.pair_cont_probs(cfg, m, a, b, None, None, evidence=ev)

        def counts(n, s):
            x = sample(n, s).numpy()
            return cont_pair_counts(nodes, P, np.stack([x[:, a[0], a[1]], x[:, b[0], b[1]]], 1))

        pr, c1 = counts(3000, 1)
        t.checks += 1
        if stats.chi2_p(pr, c1) < stats.P_CUT:
            pr, c2 = counts(12000, 2)
            t.ok(stats.chi2_p(pr, c2) >= stats.P_CUT, f"pixels {a}, {b}: joint frequencies {np.round(c2 / c2.sum(), 4).tolist()} expected {np.round(pr, 4).tolist()}")


@st.composite
def st_reach(draw):
    cfg = draw(conv.conv_cfg(kinds=("normal",), max_cells=None, max_states=None, max_ch=5, max_L=3, max_C=3))
    return {"cfg": cfg, "s": draw(gen.SEED), "p": draw(st.sampled_from([0.0, 0.2, 0.7])), "mpe": draw(st.booleans()),
            "sparse": draw(st.booleans()), "drift": draw(st.sampled_from(sm.DRIFTS))}


def run_reach(case, t):
    cfg = case["cfg"]
    raw = conv.build(cfg)
    sm.separated_normals(raw)
    if case["sparse"]:
        sm.sparse_sums(raw, case["s"])
    m = conv.Flat(cfg, raw)
    t.label(*conv.labels(cfg))
    t.label("sparse" if case["sparse"] else "dense", f"drift={case['drift']:g}")
    t.nontrivial(conv.nontrivial(cfg))
    x = m.sample(num_samples=12, seed=case["s"])
    ok, ll, per = sm.reachable(m, x)
    t.ok(bool(ok.all()), f"sample {x[~ok][:1].tolist()} cannot come from the circuit")
    keep = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]
    seen = sm.drift(x, keep, case["drift"])
    out = m.sample(evidence=seen.masked_fill(~keep, NAN), is_mpe=case["mpe"], seed=1)
    t.ok(bool((out[keep] == seen[keep]).all()), "evidence was not kept")
    # observed values far from every leaf: those of the tree they were drawn from still explain them best by hundreds of nats
    out = torch.where(keep, x, out)
    ok, ll, per = sm.reachable(m, out)
    t.ok(bool(ok.all()), "a completed image cannot come from the circuit")
    if case["mpe"]:
        z = out[~keep] / 10.0
        t.ok(not z.numel() or bool((z - z.round()).abs().max() < 1e-4), "a filled pixel is not the mode of any leaf")


@st.composite
def st_evid(draw):
    cfg = draw(conv.conv_cfg(kinds=ALL, max_cells=None, max_states=None, max_ch=4, max_L=3, max_C=3))
    return {"cfg": cfg, "n": draw(gen.rows(1, 4)), "xseed": draw(gen.SEED), "p": draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0])),
            "layout": draw(st.sampled_from(["img", "img", "flat", "strided"])), "dtype": draw(st.sampled_from(["float32", "float64"])),
            "query": draw(st.sampled_from(["sample", "mpe", "leaves", "temp"])), "seed": draw(st.integers(0, 2**40)), "g": draw(gen.SEED),
            "scopes": draw(st.one_of(st.none(), st.lists(st.integers(0, cfg["F"] - 1), min_size=1, unique=True)))}


def run_evid(case, t):
    cfg = case["cfg"]
    m = conv.build(cfg)
    n, C, H, W, F = case["n"], cfg["C"], cfg["H"], cfg["W"], cfg["F"]
    x = gen.random_states(cfg, n, case["xseed"])
    kw = {"mpe": dict(is_mpe=True), "leaves": dict(mpe_at_leaves=True), "temp": dict(temperature_sums=2.0, temperature_leaves=0.5),
          "sample": {}}[case["query"]]
    # zeros of either sign
    x[(x == 0) & (torch.rand(x.shape, generator=torch.Generator().manual_seed(case["xseed"] + 1)) < 0.5)] = -0.0
    if case["scopes"] is None:
        mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["xseed"])) < case["p"]
        ev = x.masked_fill(mask, NAN)
    else:
        mask = torch.zeros_like(x, dtype=torch.bool)
        mask[:, :, case["scopes"]] = True
        ev = x.clone()
        if case["p"] in (0.1, 0.5):
            mask |= torch.rand(x.shape, generator=torch.Generator().manual_seed(case["xseed"])) < case["p"]
            ev = x.masked_fill(mask, NAN)
        kw["marginalized_scopes"] = list(case["scopes"])
    ev = ev.view(n, C, H, W).to(getattr(torch, case["dtype"]))
    if case["layout"] == "flat":
        ev = ev.view(n, C, F)
    elif case["layout"] == "strided":
        ev = ev.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
    t.label(*conv.labels(cfg), case["layout"], case["query"], case["dtype"], "scopes" if case["scopes"] else "nan")
    t.nontrivial(conv.nontrivial(cfg) and bool(mask.any()) and not bool(mask.all()))
    before, sd = ev.clone(), {k: v.clone() for k, v in m.state_dict().items()}
    with torch.no_grad():
        ll0 = m(x.view(n, C, H, W))
    gen.seed_all(case["g"])
    s0 = states()
    out = m.sample(evidence=ev, seed=case["seed"], **kw).detach()
    t.ok(same_states(s0, states()), "a seeded call changed the global random state")
    gen.seed_all(case["g"] + 1)
    out2 = m.sample(evidence=ev, seed=case["seed"], **kw).detach()
    t.ok(torch.equal(out, out2), "two calls with the same seed differ")
    t.ok(out.shape == ev.shape, f"result shape {tuple(out.shape)} for evidence {tuple(ev.shape)}")
    t.ok(bool(((ev == before) | (ev.isnan() & before.isnan())).all()), "the caller's evidence was modified")
    o = out.reshape(n, C, F)
    t.ok(torch.equal(o[~mask].double().view(torch.int64), x[~mask].double().view(torch.int64)), "an observed pixel changed")
    filled = o.float() if case["query"] != "x" else o
    sup = gen.in_support(cfg, grid(filled))
    if cfg["leaf"]["type"] == "binomial" and case["query"] in ("sample", "temp"):
        sup = torch.isfinite(filled) & (filled >= -1e-3) & (filled <= cfg["leaf"]["n"] + 1e-3)
    t.ok(not bool((mask & ~sup).any()), f"missing pixels filled with {o[mask & ~sup][:4].tolist()}")
    # purity: neither parameters nor later likelihoods change
    t.ok(all(torch.equal(v, sd[k]) for k, v in m.state_dict().items()), "a query changed the parameters")
    with torch.no_grad():
        t.ok(torch.equal(m(x.view(n, C, H, W)), ll0), "a likelihood changed after a conditional query")
    # unconditional query after a conditional one
    u = m.sample(num_samples=n, seed=case["seed"]).detach()
    fresh = conv.build(cfg).sample(num_samples=n, seed=case["seed"]).detach()
    t.ok(u.shape == (n, C, H, W) and torch.equal(u, fresh), "an unconditional sample after a conditional query differs from that of a fresh model")
    if case["query"] == "mpe":
        torch.manual_seed(case["g"])
        t.ok(torch.equal(m.sample(evidence=ev, is_mpe=True, **({"marginalized_scopes": kw["marginalized_scopes"]} if case["scopes"] else {})).detach(), out),
             "MPE depends on the random state")
        t.ok(torch.equal(m.sample(evidence=ev, is_mpe=True, mpe_at_leaves=True, **({"marginalized_scopes": kw["marginalized_scopes"]} if case["scopes"] else {})).detach(), out),
             "MPE differs when modes at the leaves are asked for as well")
        if n > 1 and case["scopes"] is None:
            single = m.sample(evidence=ev[:1], is_mpe=True).detach()
            if not torch.allclose(single, out[:1], atol=1e-4):
                ll = m(torch.cat([single, out[:1]]).float().reshape(2, C, H, W))
                t.ok(bool((ll[0] - ll[1]).abs() < 1e-3 + 2e-6 * ll[0].abs()), "MPE of a row depends on the batch")


@st.composite
def st_dom(draw):
    cfg = draw(conv.conv_cfg(max_cells=9, max_states=1024, gains=(6.0, 12.0)))
    n = draw(st.integers(1, 4))
    cells = cfg["C"] * cfg["F"]
    return {"cfg": cfg, "xseed": draw(gen.SEED), "how": draw(st.sampled_from(["nan", "nan", "none"])),
            "masks": draw(st.lists(st.lists(st.booleans(), min_size=cells, max_size=cells), min_size=n, max_size=n))}


def run_dom(case, t):
    cfg = case["cfg"]
    m = conv.Flat(cfg, conv.build(cfg))
    C, F = cfg["C"], cfg["F"]
    states_ = gen.all_states(cfg)
    full = gen.forward_chunks(m, states_).double()[:, 0]
    n = len(case["masks"])
    x = gen.random_states(cfg, n, case["xseed"])
    pick = torch.multinomial(torch.softmax(full, 0), len(x[::2]), replacement=True)
    x[::2] = states_[pick]
    if case["how"] == "nan":
        mask = torch.tensor(case["masks"]).view(n, C, F)
        out = m.sample(evidence=x.masked_fill(mask, NAN), is_mpe=True, mpe_at_leaves=case["xseed"] % 3 == 0)
    else:
        mask = torch.ones(n, C, F, dtype=torch.bool)
        out = m.sample(num_samples=n, is_mpe=True, mpe_at_leaves=case["xseed"] % 3 == 0)
        t.ok(bool((out == out[:1]).all()), "rows of an unconditional MPE differ")
    t.label(*conv.labels(cfg), case["how"])
    B = math.prod(cfg["channels"]) * cfg["channels"][0] * cfg["channels"][-1]
    for i in range(n):
        sel = ((states_ == x[i]) | mask[i]).flatten(1).all(1)
        p = torch.softmax(full[sel], 0)
        top, j = p.max(0)
        if (1 - float(top)) * B < 0.3 and bool(mask[i].any()):
            t.nontrivial(conv.nontrivial(cfg))
            t.label("dominated")
            want = states_[sel][j]
            t.ok(bool((out[i] - want).abs().max() < 1e-4), f"row {i}: MPE {out[i].tolist()}, but {want.tolist()} has conditional probability {float(top)}")


@st.composite
def st_temp(draw):
    cfg = draw(conv.conv_cfg(kinds=EXACT, max_cells=8, max_states=128, gains=(1.0, 2.5)))
    return {"cfg": cfg, "T": draw(st.sampled_from([0.2, 0.5, 2.0, 10.0])), "s": draw(gen.SEED)}


def run_temp(case, t):
    cfg, T = case["cfg"], case["T"]
    m, ref = conv.Flat(cfg, conv.build(cfg)), conv.Flat(cfg, conv.build(cfg))
    t.label(*conv.labels(cfg), "T=%g" % T)
    t.nontrivial(conv.nontrivial(cfg))
    with torch.no_grad():
        for name, p in ref.m.named_parameters():
            if name.endswith("logits") and name.startswith("layers"):
                p.div_(T)
    probs = gen.forward_chunks(ref, gen.all_states(cfg)).double()[:, 0].exp().numpy()
    sm.joint_test(cfg, probs, lambda n, s: grid(m.sample(num_samples=n, temperature_sums=T, seed=s)), t, f"samples at sum temperature {T}", n=2000)
    if cfg["leaf"]["type"] == "categorical":
        with torch.no_grad():
            ref.m.leaf_data.logits.div_(T)
        probs = gen.forward_chunks(ref, gen.all_states(cfg)).double()[:, 0].exp().numpy()
        sm.joint_test(cfg, probs, lambda n, s: grid(m.sample(num_samples=n, temperature_sums=T, temperature_leaves=T, seed=s)), t, f"samples at temperatures {T}", n=2000)
    # the limit of low temperatures is the MPE
    a = m.sample(num_samples=2, is_mpe=True)
    b = m.sample(num_samples=200, temperature_sums=1e-5, mpe_at_leaves=True, seed=case["s"] % 99)
    if bool((b == b[:1]).all()):
        t.ok(bool((a[0] - b[0]).abs().max() < 1e-4), f"MPE {a[0].tolist()} is not the limit of low temperatures {b[0].tolist()}")


@st.composite
def st_conv(draw):
    k = draw(st.integers(1, 3))
    return {"ci": draw(st.integers(2, 4)), "co": draw(st.integers(1, 3)), "k": k, "h": k * draw(st.integers(1, 2)), "w": k * draw(st.integers(1, 2)),
            "seed": draw(gen.SEED), "T": draw(st.sampled_from([1.0, 1.0, 0.5, 3.0])), "ev": draw(st.booleans()), "mpe": draw(st.booleans()),
            "layer": draw(st.sampled_from(["conv", "full"])),
            "far": draw(st.sampled_from([0.0, 0.0, 60.0, 1000.0, 2e4]))}


def run_conv(case, t):
    """One sum layer on its own: the channel drawn at every pixel follows the (posterior) weights of the selected output channel."""
    from simple_einet.conv_pc import SamplingContext, SumConv, SumLayer

    gen.seed_all(case["seed"])
    ci, co, h, w, k = case["ci"], case["co"], case["h"], case["w"], case["k"]
    layer = SumConv(ci, co, k) if case["layer"] == "conv" else SumLayer(ci, co, h, w)
    gen.perturb(layer, case["seed"], 1.5, 1.5)
    t.label(case["layer"], "k=%d" % k, "evidence" if case["ev"] else "plain", "T=%g" % case["T"])
    t.nontrivial(co > 1 or k > 1 or h * w > 1)
    sel = torch.randint(co, (h, w))
    lls = -3 * torch.rand(1, ci, h, w) - case["far"]  # evidence may be far from every channel

    def run(n, s):
        torch.manual_seed(s)
        ctx = SamplingContext(num_samples=n, is_mpe=case["mpe"], is_differentiable=True, temperature_sums=case["T"])
        ctx.indices_out = torch.nn.functional.one_hot(sel, co).permute(2, 0, 1).float().expand(n, -1, -1, -1)
        if case["ev"]:
            layer._enable_input_cache()
            layer(lls.expand(n, -1, -1, -1))
        try:
            with torch.no_grad():
                ctx = layer.sample(ctx)
        finally:
            if case["ev"]:
                layer._disable_input_cache()
        o = ctx.indices_out
        t.ok(tuple(o.shape) == (n, ci, h, w), f"indices of shape {tuple(o.shape)}")
        t.ok(bool(((o.sum(1) - 1).abs() < 1e-4).all()), "indices are not one-hot over the input channels")
        return o.argmax(1)

    logits = layer.logits.detach()
    tile = logits.repeat(1, 1, h // k, w // k) if case["layer"] == "conv" else logits
    W = torch.gather(tile, 0, sel.view(1, 1, h, w).expand(1, ci, h, w))[0].double()  # [ci, h, w]
    logp = torch.log_softmax(W / case["T"], 0) if case["T"] != 1.0 else torch.log_softmax(W, 0)
    if case["ev"]:
        logp = torch.log_softmax(logp + lls[0].double(), 0)
    if case["mpe"]:
        o = run(2, 1)
        s2 = logp.topk(2, dim=0)[0]
        clear = (s2[0] - s2[1]) > 1e-3
        t.ok(bool((o == logp.argmax(0))[:, clear].all()), "the most probable channel was not chosen")
        return
    for i in range(h):
        for j in range(w):
            ok, d = stats.two_stage(lambda n, s: np.bincount(run(n, s)[:, i, j].numpy(), minlength=ci), logp[:, i, j].exp().numpy(), 800)
            t.ok(ok, f"channel frequencies at pixel ({i}, {j}) do not follow the weights (p={d})")


@st.composite
def st_modes(draw):
    cfg = draw(conv.conv_cfg(kinds=("normal",), max_cells=9, max_states=None, gains=(0.0, 0.5)))
    cfg["gs"] = draw(st.sampled_from([0.5, 2.0]))
    return {"cfg": cfg, "s": draw(gen.SEED), "p": draw(st.sampled_from([0.0, 0.3, 0.6])), "drift": draw(st.sampled_from(sm.DRIFTS))}


def run_modes(case, t):
    """With modes at the leaves the branches are still drawn with their (posterior) weights."""
    cfg = case["cfg"]
    raw = conv.build(cfg)
    sm.separated_normals(raw)
    m = conv.Flat(cfg, raw)
    t.label(*conv.labels(cfg), "evidence" if case["p"] else "plain")
    base = keep = None
    if case["p"]:
        base = m.sample(num_samples=1, seed=case["s"], mpe_at_leaves=True)[0]
        keep = torch.rand(base.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]

    def draw(n, s):
        if base is None:
            return m.sample(num_samples=n, mpe_at_leaves=True, seed=s)
        out = m.sample(evidence=base.masked_fill(~keep, NAN).expand(n, -1, -1).clone(), mpe_at_leaves=True, seed=s)
        t.ok(bool((out[:, keep] == base[keep]).all()), "evidence was not kept")
        return out

    k = sm.mode_test(m, draw, t, "modes at the leaves", base=base, keep=keep)
    t.nontrivial(conv.nontrivial(cfg) and k > 1)


SUBS = [
    Sub("joint", st_joint, run_joint, quick=200, desc="joint frequencies of all images against exact probabilities"),
    Sub("conditional", st_cond, run_cond, quick=200, desc="conditional frequencies per evidence row, rows shuffled in one batch"),
    Sub("continuous", st_cont, run_cont, quick=40, desc="normal leaves: KS of every missing pixel, one joint histogram"),
    Sub("leaf-modes", st_modes, run_modes, quick=80, desc="modes at the leaves: combinations of leaf modes are drawn with the weights of their branches"),
    Sub("reachable", st_reach, run_reach, quick=200, desc="larger images with far-apart leaves: samples and completions come from one induced tree"),
    Sub("evidence", st_evid, run_evid, quick=500, desc="observed pixels kept, support, layouts, seeds, purity, determinism of MPE"),
    Sub("dominating", st_dom, run_dom, quick=300, desc="MPE returns a completion that dominates the conditional distribution"),
    Sub("temperature", st_temp, run_temp, quick=120, desc="temperatures against circuits with rescaled logits; low-temperature limit"),
    Sub("sum-layers", st_conv, run_conv, quick=120, desc="SumLayer and SumConv alone"),
]
