"""P08: MPE follows the most probable branches and leaf modes."""
import itertools
import math

import torch
from hypothesis import strategies as st

from .. import gen, ties
from .. import sampling as sm
from ..core import Sub

RULE = ("A case is an Einet configuration with seeded parameters and evidence with a missing pattern. Non-trivial: a sum "
        "node has two children and, where the oracle applies (dominating completion / clear branch margins), it applied.")
ASSUMPTIONS = ["completions are only predicted where the winning branches lead by a clear margin (ties may go either way)"]
NAN = float("nan")
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")


# ------------------------------------------------------------ dominating completion
@st.composite
def st_dom(draw):
    cfg = draw(gen.einet_cfg(wide="SIRK", max_states=1024, sum_gains=(4.0, 10.0), leaf_gains=(6.0, 14.0)))
    cells = cfg["C"] * cfg["F"]
    n = draw(st.integers(1, 4))
    return {"cfg": cfg, "xseed": draw(gen.SEED), "how": draw(st.sampled_from(["nan", "nan", "scopes", "both", "class"])),
            "masks": draw(st.lists(st.lists(st.booleans(), min_size=cells, max_size=cells), min_size=n, max_size=n)),
            "scopes": draw(st.lists(st.integers(0, cfg["F"] - 1), min_size=1, unique=True)), "diff": draw(st.booleans()),
            "k": draw(st.integers(0, cfg["K"] - 1))}


def branches(cfg):
    """Upper bound on the product of branch counts along one root-to-leaf path."""
    sq = 2 if cfg["layer"] == "einsum" else 1
    b = cfg["K"] * cfg["R"] * cfg["I"] ** sq
    return b * cfg["S"] ** (sq * cfg["depth"])


def run_dom(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    C, F = cfg["C"], cfg["F"]
    states = gen.all_states(cfg)
    table = gen.forward_chunks(m, states).double()
    n = len(case["masks"])
    x = gen.random_states(cfg, n, case["xseed"])
    # half of the rows: evidence from the model itself, which keeps conditionals sharp
    x[::2] = m.sample(num_samples=len(x[::2]), seed=case["xseed"] % 1000)
    kw = {}
    if case["how"] == "class":
        if cfg["K"] == 1:
            t.reject()
        out = m.sample(num_samples=n, class_index=case["k"], is_mpe=True, is_differentiable=case["diff"])
        mask = torch.ones(n, C, F, dtype=torch.bool)
        full = table[:, case["k"]]
    else:
        full = torch.logsumexp(table, 1)
        if case["how"] == "nan":
            mask = torch.tensor(case["masks"]).view(n, C, F)
            out = m.sample(evidence=x.masked_fill(mask, NAN), is_mpe=True, is_differentiable=case["diff"])
        else:
            mask = torch.zeros(n, C, F, dtype=torch.bool)
            ev = x.clone()
            if case["how"] == "both":
                mask |= torch.tensor(case["masks"]).view(n, C, F)
                ev = x.masked_fill(mask, NAN)
            mask[:, :, case["scopes"]] = True
            out = m.sample(evidence=ev.clone(), is_mpe=True, marginalized_scopes=list(case["scopes"]), is_differentiable=case["diff"])
            t.ok(torch.equal(out, m.mpe(evidence=ev.clone(), marginalized_scopes=list(case["scopes"]), is_differentiable=case["diff"])),
                 "mpe() with marginalized scopes differs from sample(is_mpe=True)")
    t.label(*gen.labels(cfg))
    t.label(case["how"])
    out = out.detach()
    t.ok(out.shape == x.shape, f"shape {tuple(out.shape)}")
    B = branches(cfg)
    for i in range(n):
        sel = ((states == x[i]) | mask[i]).flatten(1).all(1)
        p = torch.softmax(full[sel], 0)
        top, j = p.max(0)
        if (1 - float(top)) * B < 0.3 and bool(mask[i].any()):
            want = states[sel][j]
            t.nontrivial(gen.nontrivial(cfg))
            t.label("dominated")
            t.ok(bool((out[i] - want).abs().max() < 1e-4), f"row {i}: MPE {out[i].tolist()}, but {want.tolist()} has conditional probability {float(top)}")


# ------------------------------------------------------------ greedy branches on visible components
@st.composite
def st_greedy(draw):
    F = draw(st.integers(2, 6))
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, min_F=F, max_F=F, max_C=2, max_I=3, max_R=3, max_S=3, max_K=3,
                             leaf_gains=(0.0, 0.5), sum_gains=(0.0, 1.0, 2.5)))
    if cfg["struct"] == "bottom-up":
        cfg["depth"] = 0
    cfg["depth"] = min(cfg["depth"], 1)
    miss = draw(st.lists(st.integers(0, cfg["F"] * cfg["C"] - 1), min_size=1, max_size=4, unique=True))
    if cfg["layer"] == "einsum" and cfg["depth"] == 1:
        # an einsum layer picks a pair of components at once: both sides must be visible
        miss = sorted(set(miss[:1]) | set(range(cfg["F"])))
    return {"cfg": cfg, "miss": miss, "xseed": draw(gen.SEED), "n": draw(st.integers(1, 3)), "close": draw(st.integers(0, 2)) == 2}


def run_greedy(case, t):
    from simple_einet.layers.distributions.normal import Normal

    cfg = case["cfg"]
    m = gen.build(cfg)
    C, F, I, R = cfg["C"], cfg["F"], cfg["I"], cfg["R"]
    if case["close"]:
        close_weights(m)
        t.label("close weights")
    cells = [(i // F, i % F) for i in sorted(case["miss"])]
    gap, sig = 10.0, 0.1
    for mod in m.modules():
        if isinstance(mod, Normal):
            with torch.no_grad():
                v = (torch.arange(I * R).view(I, R) * gap).float()
                for c, f in cells:
                    mod.means[0, c, f] = v
                    mod.logvar[0, c, f] = 2 * math.log(sig)
    n = case["n"]
    x = gen.random_states(cfg, n, case["xseed"])
    for c, f in cells:
        x[:, c, f] = NAN
    out = m.mpe(evidence=x)
    t.label(*gen.labels(cfg))
    # joint log-posterior of the components of the missing cells: density at the component means
    assigns = list(itertools.product(range(I), repeat=len(cells)))
    for i in range(n):
        q = torch.full((R, len(assigns), C, F), NAN)
        q[:] = x[i]
        for r in range(R):
            for a, ls in enumerate(assigns):
                for (c, f), l in zip(cells, ls):
                    q[r, a, c, f] = (l * R + r) * gap
        ll = gen.forward_chunks(m, q.view(-1, C, F)).double().view(R, len(assigns), cfg["K"])
        lc = torch.logsumexp(ll.flatten(0, 1), 0)
        k, clear1 = winner(lc)
        lr = torch.logsumexp(ll[:, :, k], 1)
        r, clear2 = winner(lr)
        a, clear3 = winner(ll[r, :, k])
        if not (clear1 and clear2 and clear3):
            t.label("near-tie")
            continue
        t.nontrivial(gen.nontrivial(cfg))
        for (c, f), l in zip(cells, assigns[a]):
            want = (l * R + r) * gap
            t.ok(abs(float(out[i, c, f]) - want) < 1e-3,
                 f"row {i}, cell (c={c}, f={f}): MPE {float(out[i, c, f])}, the most probable branches (class {k}, repetition {r}, component {l}) give {want}")


def close_weights(m):
    """Weights of siblings that differ by a few per cent only."""
    with torch.no_grad():
        for name, p in m.named_parameters():
            if name.endswith("logits") and (name.startswith("layers") or name.startswith("mixing")):
                p.mul_(0.01)


def winner(v, margin=1e-3):
    s, idx = torch.sort(v, descending=True)
    return int(idx[0]), len(v) == 1 or float(s[0] - s[1]) > margin


# ------------------------------------------------------------ limit of low temperatures, determinism
@st.composite
def st_limit(draw):
    cfg = draw(gen.einet_cfg(wide="SIRKCFV", huge=True, kinds=ALL, max_states=None, max_F=24, max_C=2, max_S=5, max_I=5, max_R=3, max_K=3, discrete=None,
                             sum_gains=(1.0, 2.5), leaf_gains=(0.5, 1.0, 2.0)))
    return {"cfg": cfg, "cls": draw(st.booleans()), "k": draw(st.integers(0, cfg["K"] - 1)), "s": draw(gen.SEED),
            "close": draw(st.booleans())}


def run_limit(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    T = 1e-5
    if case["close"]:
        close_weights(m)
        T = 1e-7
    kw = {"class_index": case["k"]} if cfg["K"] > 1 else {}  # without a class the uniform class prior is a tie
    a = m.sample(num_samples=3, is_mpe=True, **kw)
    b = m.sample(num_samples=200, temperature_sums=T, mpe_at_leaves=True, seed=case["s"] % 999, **kw)
    t.label(*gen.labels(cfg))
    t.label("close weights" if case["close"] else "clear weights")
    t.nontrivial(gen.nontrivial(cfg))
    t.ok(a.shape == (3, cfg["C"], cfg["F"]), f"shape {tuple(a.shape)}")
    t.ok(bool((a == a[:1]).all()), "rows of an unconditional MPE differ")
    # near-ties of weights: two runs of the limit must agree with each other before they can speak about the MPE
    if bool((b - b[:1]).abs().max() > 1e-5):
        t.label("near-tie")
        return
    t.ok(bool((a[0] - b[0]).abs().max() < 1e-5), f"MPE {a[0].tolist()} is not the limit of low temperatures {b[0].tolist()}")
    leaf_t = [cfg["leaf"]] if cfg["leaf"]["type"] != "multi" else [p["leaf"] for p in cfg["leaf"]["parts"]]
    if all(l["type"] in ("normal", "ratnormal", "categorical") for l in leaf_t):
        c = m.sample(num_samples=2, temperature_sums=T, temperature_leaves=1e-8, seed=3, **kw)
        close = (c - a[:1]).abs() < 0.05
        cats = [f for f in range(cfg["F"]) if gen.domain(cfg)[f] is not None]
        if cats:  # categorical modes may be near-ties; require agreement only where the limit itself is stable
            close[:, :, cats] |= (c[:, :, cats] != c[:1, :, cats])
        t.ok(bool(close.all()), f"sampling at temperature 0 gives {c[0].tolist()}, MPE {a[0].tolist()}")


def nan_at(x, scopes):
    y = x.clone()
    y[:, :, scopes] = NAN
    return y


def near(m, a, b, t, msg, ev):
    """Equal rows, or rows of (almost) equal density: a tie decided by float rounding."""
    for i in range(len(a)):
        if not torch.allclose(a[i], b[i], atol=1e-5):
            if ties.unsettled(m, lambda v: v.mpe(evidence=ev[i : i + 1]), m(ev[i : i + 1])):
                t.label("tie")
                continue
            ll = torch.logsumexp(m(torch.stack([a[i], b[i]])), 1)
            t.ok(bool((ll[0] - ll[1]).abs() < 1e-3 + 2e-6 * ll[0].abs()), f"{msg}: row {i}: {a[i].tolist()} vs {b[i].tolist()}")


@st.composite
def st_det(draw):
    cfg = draw(gen.einet_cfg(wide="SIRKCFV", huge=True, kinds=ALL, max_states=None, max_F=24, max_C=2, max_S=5, max_I=5, max_R=3, max_K=3, discrete=None,
                             sum_gains=(0.0, 1.0, 2.5), leaf_gains=(0.5, 1.0, 2.0)))
    return {"cfg": cfg, "n": draw(st.integers(2, 6)), "p": draw(st.sampled_from([0.2, 0.5, 0.9])), "xseed": draw(gen.SEED), "i": draw(st.integers(0, 5))}


def run_det(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    n = case["n"]
    x = gen.random_states(cfg, n, case["xseed"])
    g = torch.Generator().manual_seed(case["xseed"])
    mask = torch.rand(x.shape, generator=g) < case["p"]
    ev = x.masked_fill(mask, NAN)
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg) and bool(mask.any()))
    torch.manual_seed(1)
    a = m.mpe(evidence=ev)
    torch.manual_seed(2)
    b = m.mpe(evidence=ev)
    t.ok(torch.equal(a, b), "two MPE calls differ")
    c = m.sample(evidence=ev, is_mpe=True, seed=12345)
    t.ok(torch.equal(a, c), "MPE depends on the seed / differs from sample(is_mpe=True)")
    t.ok(torch.equal(a, m.sample(evidence=ev, is_mpe=True, mpe_at_leaves=True)), "MPE differs when modes at the leaves are asked for as well")
    scopes = sorted({(case["i"] + 7 * j) % cfg["F"] for j in range(1 + case["n"] % 2)})
    u = m.mpe(evidence=x.clone(), marginalized_scopes=list(scopes))
    v = m.mpe(evidence=nan_at(x, scopes))
    near(m, u, v, t, f"MPE with features {scopes} marginalized by name and by NaN differ", nan_at(x, scopes))
    rest = [f for f in range(cfg["F"]) if f not in scopes]
    t.ok(torch.equal(u[:, :, rest], x[:, :, rest]), "mpe() with marginalized scopes changes observed features")
    # evidence on the marginalized features must not matter
    y = x.clone()
    y[:, :, scopes] = gen.random_states(cfg, n, case["xseed"] + 1)[:, :, scopes]
    t.ok(torch.equal(u, m.mpe(evidence=y, marginalized_scopes=list(scopes))), f"MPE depends on the values of the marginalized features {scopes}")
    i = case["i"] % n
    d = m.mpe(evidence=ev[i : i + 1])
    e = m.mpe(evidence=ev.flip(0))[n - 1 - i]
    # batching changes float rounding; a differing row must be a tie between explanations of (almost) equal density
    for other in (d[0], e):
        if not torch.allclose(other, a[i], atol=1e-5):
            if ties.unsettled(m, lambda v: v.mpe(evidence=ev[i : i + 1]), m(ev[i : i + 1])):
                t.label("tie")
                continue
            ll = torch.logsumexp(m(torch.stack([other, a[i]])), 1)
            t.ok(bool((ll[0] - ll[1]).abs() < 1e-3 + 2e-6 * ll[0].abs()), f"MPE of row {i} depends on the batch: {other.tolist()} vs {a[i].tolist()}")


@st.composite
def st_reach(draw):
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, max_F=40, max_C=2, max_S=5, max_I=5, max_R=4, max_K=4,
                             leaf_gains=(0.0,), wide="SIRKCF", huge=True))
    return {"cfg": cfg, "p": draw(st.sampled_from([0.05, 0.2, 0.6, 0.95])), "s": draw(gen.SEED), "diff": draw(st.booleans()),
            "sparse": draw(st.booleans()), "drift": draw(st.sampled_from(sm.DRIFTS))}


@st.composite
def st_many(draw):
    """Layers with more children per node than a byte or a power of two would count."""
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, max_F=6, max_C=1, max_S=4, max_I=4, max_R=2, max_K=2,
                             leaf_gains=(0.0,), wide="SIR", huge="always"))
    return {"cfg": cfg, "p": draw(st.sampled_from([0.1, 0.3, 0.6])), "s": draw(gen.SEED), "diff": draw(st.booleans()),
            "sparse": True, "drift": draw(st.sampled_from(sm.DRIFTS))}


def run_reach(case, t):
    """Completions are joint leaf modes of one induced tree, also for a fully hidden input."""
    cfg = case["cfg"]
    m = gen.build(cfg)
    sm.separated_normals(m)
    if case["sparse"]:
        sm.sparse_sums(m, case["s"])
    t.label(*gen.labels(cfg))
    t.label("sparse" if case["sparse"] else "dense", f"drift={case['drift']:g}")
    t.nontrivial(gen.nontrivial(cfg))
    n = 8
    base = m.sample(num_samples=n, seed=case["s"])
    keep = torch.rand(base.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]
    keep[0] = False
    seen = sm.drift(base, keep, case["drift"])
    out = m.sample(evidence=seen.masked_fill(~keep, NAN), is_mpe=True, is_differentiable=case["diff"]).detach()
    t.ok(bool((out[keep] == seen[keep]).all()), "evidence was not kept")
    out = torch.where(keep, base, out)
    z = (out[~keep] / 10.0)
    t.ok(bool((z - z.round()).abs().max() < 1e-4) if z.numel() else True, "a filled value is not the mode of any leaf")
    ok, ll, per = sm.reachable(m, out)
    t.ok(bool(ok.all()), f"completion {out[~ok][:1].tolist()} is impossible under the model")


SUBS = [
    Sub("dominating", st_dom, run_dom, quick=900,
        desc="discrete models with sharp weights: where one completion has conditional probability > 1 - 0.3 / (branches on a path), MPE must return it"),
    Sub("greedy", st_greedy, run_greedy, quick=600,
        desc="models of depth <= 1 with far-apart normal leaves, where components are visible in the values: class, repetition and components must be the posterior argmax"),
    Sub("low-temperature", st_limit, run_limit, quick=400, desc="unconditional MPE equals sampling with temperature 1e-5"),
    Sub("deterministic", st_det, run_det, quick=400, desc="repeated calls, seeds, single rows and reversed batches agree"),
    Sub("many-children", st_many, run_reach, quick=60,
        desc="layers with 65 to 136 input channels or repetitions and only a few open children per sum node"),
    Sub("reachable", st_reach, run_reach, quick=200, desc="large models: completions are leaf modes of one induced tree"),
]
