"""P19: leaf samples and modes agree with the leaf density."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, leaf, stats
from ..core import Sub

RULE = ("A case is a leaf layer with generated shape and parameters, a component per sample and feature, a repetition per sample, a temperature. "
        "Non-trivial: more than one component or repetition.")
ASSUMPTIONS = ["leaf temperatures are documented for normal and categorical leaves; other leaves are drawn at temperature one",
               "differentiable sampling of binomial leaves is documented as a Gaussian approximation: a normal of the same mean and variance, clipped to the range",
               "statistical tests: a violation needs p < 1e-6 twice, on independent samples",
               "multivariate normal leaves are selected as whole groups"]
NAN = float("nan")


def ctx_for(case, n, seed, **kw):
    """A sampling context with random component [n, F'] and repetition [n] choices, plus those choices as [n, F] and [n]."""
    from simple_einet.sampling_utils import SamplingContext

    g = torch.Generator().manual_seed(seed)
    k = case["leaf"].get("card", 1)
    out = torch.randint(case["L"], (n, case["F"] // k), generator=g).repeat_interleave(k, 1)
    rep = torch.randint(case["R"], (n,), generator=g)
    diff = kw.get("is_differentiable", False)
    io, ir = out, rep
    if diff:
        io = torch.nn.functional.one_hot(out, case["L"]).float()
        ir = torch.nn.functional.one_hot(rep, case["R"]).float()
    return SamplingContext(num_samples=n, indices_out=io.clone(), indices_repetition=ir.clone(), num_repetitions=case["R"], **kw), out, rep


def picker(out, rep):
    n, F = out.shape
    fi = torch.arange(F)[None, :].expand(n, F)
    ri = rep[:, None].expand(n, F)

    def pick(t):  # [C, F, L, R, ...] -> [N, C, F, ...]
        return t[:, fi, out, ri].transpose(0, 1)

    return pick


def label(case, t):
    t.label("leaf=" + case["leaf"]["type"], "C>1" if case["C"] > 1 else "C=1", "R>1" if case["R"] > 1 else "R=1", "L>1" if case["L"] > 1 else "L=1")
    t.nontrivial(max(case["L"], case["R"]) > 1)


def support(case, x):
    spec = case["leaf"]
    vals = gen.leaf_values(spec)
    if vals is None:
        return torch.isfinite(x)
    return (x.unsqueeze(-1) == torch.tensor(vals, dtype=x.dtype)).any(-1)


# ------------------------------------------------------------ samples
@st.composite
def st_dist(draw):
    case = draw(leaf.layer(wide=True, max_F=4, max_C=2))
    temps = [1.0, 1.0, 1.0, 0.3, 4.0] if case["leaf"]["type"] in ("normal", "ratnormal", "categorical") else [1.0]
    case.update(T=draw(st.sampled_from(temps)), diff=draw(st.integers(0, 3)) == 0 and case["leaf"]["type"] != "binomial", q=draw(gen.SEED))
    return case


def run_dist(case, t):
    spec = case["leaf"]
    m = leaf.make(case)
    P = leaf.ref_params(spec, m)
    C, F, L, R = case["C"], case["F"], case["L"], case["R"]
    label(case, t)
    t.label("T=%g" % case["T"], "differentiable" if case["diff"] else "plain")
    if spec["type"] == "ratnormal" and float(P["sigma"].min()) < 1e-4 or spec["type"] == "mvn" and float(torch.linalg.cond(P["tril"]).max()) > 1e3:
        t.reject()

    cache = {}

    def draw(n, s):
        if (n, s) not in cache:
            ctx, out, rep = ctx_for(case, n, case["q"] + s, temperature_leaves=case["T"], is_differentiable=case["diff"])
            torch.manual_seed(case["q"] ^ (s * 7919))
            with torch.no_grad():
                x = m.sample(ctx).float()
            t.ok(tuple(x.shape) == (n, C, F), f"samples of shape {tuple(x.shape)}, expected {(n, C, F)}")
            ok = support(case, x)
            t.ok(bool(ok.all()), f"samples outside the support: {x[~ok][:4].tolist()}")
            u = leaf.pit(spec, P, x, picker(out, rep), case["T"], np.random.default_rng(s))
            cache[(n, s)] = (u, out.numpy(), rep.numpy())
        return cache[(n, s)]

    N = 2000
    bins = lambda u: np.bincount((u * 10).astype(int).clip(0, 9), minlength=10)
    uni = np.full(10, 0.1)
    g = torch.Generator().manual_seed(case["q"])
    r1 = lambda k: int(torch.randint(k, (1,), generator=g))
    for c in range(C):
        for f in range(F):
            ok, d = stats.two_stage(lambda n, s: bins(draw(n, s)[0][:, c, f]), uni, N, 4 * N)
            t.ok(ok, f"{spec['type']} leaf: samples of channel {c} feature {f} do not follow their density (p={d}, T={case['T']})")
            if L * R > 1:
                l, r = r1(L), r1(R)

                def some(n, s):
                    u, o, rp = draw(n, s)
                    return bins(u[(o[:, f] == l) & (rp == r), c, f])

                ok, d = stats.two_stage(some, uni, N, 4 * N)
                t.ok(ok, f"{spec['type']} leaf: samples of channel {c} feature {f} from component {l} of repetition {r} do not follow its density (p={d}, T={case['T']})")
    # all cells together, with finer bins in the tails
    edges = np.array([0, 0.0005, 0.002, 0.006, 0.015, 0.04, 0.1, 0.3, 0.5, 0.7, 0.9, 0.96, 0.985, 0.994, 0.998, 0.9995, 1.0])
    ok, d = stats.two_stage(lambda n, s: np.histogram(np.clip(draw(n, s)[0].reshape(-1), 0, 1), edges)[0], np.diff(edges), N, 4 * N)
    t.ok(ok, f"{spec['type']} leaf: the tails of the samples do not follow the density (p={d}, T={case['T']})")
    # independence: of two cells, and of consecutive samples
    cells = [(c, f) for c in range(C) for f in range(F)]
    grid = lambda a, b: np.bincount((a * 4).astype(int).clip(0, 3) * 4 + (b * 4).astype(int).clip(0, 3), minlength=16)
    if len(cells) > 1:
        for _ in range(3):
            a, b = cells[r1(len(cells))], cells[r1(len(cells))]
            if a == b:
                continue
            ok, d = stats.two_stage(lambda n, s: grid(draw(n, s)[0][:, a[0], a[1]], draw(n, s)[0][:, b[0], b[1]]), np.full(16, 1 / 16), N, 4 * N)
            t.ok(ok, f"{spec['type']} leaf: samples of cells {a} and {b} are dependent (p={d})")
    a = cells[r1(len(cells))]
    ok, d = stats.two_stage(lambda n, s: grid(draw(n, s)[0][0::2, a[0], a[1]], draw(n, s)[0][1::2, a[0], a[1]]), np.full(16, 1 / 16), N, 4 * N)
    t.ok(ok, f"{spec['type']} leaf: consecutive samples of cell {a} are dependent (p={d})")


# ------------------------------------------------------------ modes and selection
@st.composite
def st_mode(draw):
    case = draw(leaf.layer(wide=True, max_F=6, max_n=255))
    case.update(n=draw(st.integers(1, 6)), q=draw(gen.SEED), diff=draw(st.booleans()), how=draw(st.sampled_from(["mpe", "leaves", "both"])),
                extreme=draw(st.sampled_from([0, 0, 0, 30, -30, 200, -200])), noout=draw(st.integers(0, 4)) == 0)
    return case


def run_mode(case, t):
    spec = case["leaf"]
    m = leaf.make(case)
    if case["extreme"]:
        with torch.no_grad():
            for name, p in m.named_parameters():
                if p.requires_grad and spec["type"] in ("bernoulli", "binomial", "categorical"):
                    p += case["extreme"] * torch.randint(-1, 2, p.shape, generator=torch.Generator().manual_seed(case["q"])).float()
    label(case, t)
    t.label(case["how"], "differentiable" if case["diff"] else "plain", "extreme" if case["extreme"] else "moderate")
    P = leaf.ref_params(spec, m)
    n, C, F = case["n"], case["C"], case["F"]
    ctx, out, rep = ctx_for(case, n, case["q"], is_differentiable=case["diff"], is_mpe=case["how"] != "leaves", mpe_at_leaves=case["how"] != "mpe")
    if case["noout"]:
        ctx.indices_out = None
    before = torch.get_rng_state()
    with torch.no_grad():
        x = m.sample(ctx).float()
    t.ok(torch.equal(before, torch.get_rng_state()), "taking a mode consumed random numbers")
    if case["noout"]:
        t.ok(tuple(x.shape) == (n, C, F, case["L"]), f"modes of all components have shape {tuple(x.shape)}")
        x = torch.stack([x[i].gather(-1, out[i].expand(C, F).unsqueeze(-1))[..., 0] for i in range(n)])
    t.ok(tuple(x.shape) == (n, C, F), f"modes of shape {tuple(x.shape)}, expected {(n, C, F)}")
    pick = picker(out, rep)
    sup = support(case, x)
    t.ok(bool(sup.all()), f"modes outside the support: {x[~sup][:4].tolist()}")
    vals = gen.leaf_values(spec)
    if vals is None:
        if spec["type"] == "mvn":
            k = spec["card"]
            mu = pick(P["mu"].repeat_interleave(k, 1))[:, :, ::k].reshape(n, C, F)
        else:
            mu = pick(P["mu"])
        bad = (x.double() - mu).abs() > 1e-5 * (1 + mu.abs())
        t.ok(not bool(bad.any()), f"{spec['type']} leaf: mode {x[bad][:3].tolist()}, mean of the selected component {mu[bad][:3].tolist()}")
    else:
        tab = pick(torch.stack([leaf.log_pmf(spec, P, k) for k in vals], -1))
        best = tab.max(-1)[0]
        got = tab.gather(-1, x.long().unsqueeze(-1))[..., 0]
        slack = 1e-5 + 1e-6 * spec.get("n", 1) * best.abs().clamp(min=1)
        if "logit" in P:
            slack = slack + 1e-4  # the success probability is a float32
        bad = got < best - slack
        if bool(bad.any()):
            i = tuple(bad.nonzero()[0].tolist())
            t.fail(f"{spec['type']} leaf: mode {float(x[i])} has log-mass {float(got[i])}, the maximum is {float(best[i])} at {vals[int(tab[i].argmax())]}")
        t.checks += 1
        # the layer's own density agrees that it is a maximiser
        with torch.no_grad():
            own = torch.stack([m(torch.full((1, C, F), float(v)), None)[0] for v in vals], -1).double()
        own = pick(own)
        top = own.max(-1)[0]
        g2 = own.gather(-1, x.long().unsqueeze(-1))[..., 0]
        sl = 1e-4 + 2e-6 * spec.get("n", 1) * top.abs().clamp(min=1)
        t.ok(bool((g2 >= top - sl).all()), f"{spec['type']} leaf: the mode does not maximise the layer's own log-mass")


# ------------------------------------------------------------ support and selection of random draws
@st.composite
def st_sel(draw):
    case = draw(leaf.layer(wide=True, max_F=6, max_n=255))
    case.update(n=draw(st.integers(1, 8)), q=draw(gen.SEED), extreme=draw(st.sampled_from([0, 0, 30, -30, 300, -300])))
    return case


def run_sel(case, t):
    spec = case["leaf"]
    m = leaf.make(case)
    if case["extreme"] and spec["type"] in ("bernoulli", "binomial", "categorical"):
        with torch.no_grad():
            for p in m.parameters():
                if p.requires_grad:
                    p += case["extreme"] * torch.randint(-1, 2, p.shape, generator=torch.Generator().manual_seed(case["q"])).float()
    label(case, t)
    n, C, F, L, R = case["n"], case["C"], case["F"], case["L"], case["R"]
    P = leaf.ref_params(spec, m)
    # far-apart, sharp components identify the selected one
    sharp = spec["type"] in ("normal", "mvn")
    if sharp:
        with torch.no_grad():
            means = m.means
            means.copy_(50.0 * torch.arange(means.numel(), dtype=torch.float32).reshape(means.shape))
            if spec["type"] == "normal":
                m.logvar.fill_(-8.0)
            else:
                m.L_diag_log.fill_(-4.0)
                m.L_offdiag.zero_()
        P = leaf.ref_params(spec, m)
    for diff in (False, True):
        ctx, out, rep = ctx_for(case, n, case["q"], is_differentiable=diff)
        torch.manual_seed(case["q"])
        with torch.no_grad():
            x = m.sample(ctx).float()
        t.ok(tuple(x.shape) == (n, C, F), f"samples of shape {tuple(x.shape)}, expected {(n, C, F)}")
        ok = support(case, x)
        if diff and spec["type"] == "binomial":
            ok = torch.isfinite(x) & (x >= 0) & (x <= spec["n"])
        t.ok(bool(ok.all()), f"samples outside the support: {x[~ok][:4].tolist()}")
        pick = picker(out, rep)
        if sharp:
            k = spec.get("card", 1)
            mu = P["mu"] if k == 1 and spec["type"] == "normal" else P["mu"].repeat_interleave(k, 1)
            mu = pick(mu) if spec["type"] == "normal" else pick(mu)[:, :, ::k].reshape(n, C, F)
            t.ok(bool(((x.double() - mu).abs() < 5).all()), f"a sample does not come from the selected component (differentiable={diff}): {x.tolist()}, selected means {mu.tolist()}")
        elif spec["type"] in ("bernoulli", "categorical", "binomial"):
            lp = pick(torch.stack([leaf.log_pmf(spec, P, v) for v in gen.leaf_values(spec)], -1))
            got = lp.gather(-1, x.round().long().unsqueeze(-1))[..., 0]
            if not (diff and spec["type"] == "binomial"):
                t.ok(bool((got > -40).all()), "a value of probability below e^-40 was drawn from the selected component")


# ------------------------------------------------------------ differentiable binomial samples
@st.composite
def st_clip(draw):
    return {"n": draw(st.sampled_from([1, 2, 5, 20, 255])), "p": draw(st.sampled_from([1e-4, 0.002, 0.03, 0.2, 0.5, 0.8, 0.99, 0.9999])), "q": draw(st.floats(0.05, 0.95)),
            "s": draw(gen.SEED)}


def run_clip(case, t):
    """Differentiable binomial samples follow the documented approximation, a normal of the same mean and variance clipped to the range."""
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.sampling_utils import SamplingContext

    l = Binomial(num_features=2, num_channels=1, num_leaves=2, num_repetitions=1, total_count=case["n"])
    ps = torch.tensor([[case["p"], 0.5], [case["q"], case["p"]]])
    with torch.no_grad():
        l.logits.copy_(torch.logit(ps.double()).float().view(1, 1, 2, 2, 1))
    pick = torch.tensor([0, 1])  # the leaves of probability p
    t.label("n=%d" % case["n"], "p=%g" % case["p"])
    t.nontrivial(True)
    mu, sd = case["n"] * case["p"], (case["n"] * case["p"] * (1 - case["p"])) ** 0.5
    z = [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0]
    edges = [mu + sd * v for v in z if 1e-3 * sd < mu + sd * v < case["n"] - 1e-3 * sd]
    cdf = [0.5 * (1 + math.erf((e - mu) / sd / 2**0.5)) for e in edges]
    probs = np.diff([0.0] + cdf + [1.0])

    def counts(N, seed):
        gen.seed_all(case["s"] + seed)
        ctx = SamplingContext(num_samples=N, indices_out=torch.nn.functional.one_hot(pick.expand(N, 2), 2).float(), indices_repetition=torch.ones(N, 1),
                              num_repetitions=1, is_differentiable=True)
        x = l.sample(ctx).detach()
        x = x.gather(-1, pick.view(1, 1, 2, 1).expand(N, 1, 2, 1)).squeeze(-1) if x.dim() == 4 else x
        t.ok(bool(((x >= 0) & (x <= case["n"])).all()), "differentiable binomial samples leave the range")
        return np.bincount(np.searchsorted(np.array(edges), x.double().reshape(-1).numpy()), minlength=len(probs))

    ok, d = stats.two_stage(counts, probs, 3000)
    t.ok(ok, f"differentiable samples of a binomial of {case['n']} trials at {case['p']} do not follow the clipped normal (p={d})")


SUBS = [
    Sub("approximation", st_clip, run_clip, quick=60, desc="differentiable binomial samples against the documented clipped normal"),
    Sub("samples", st_dist, run_dist, quick=260, desc="probability integral transforms of the samples per cell and per component; independence"),
    Sub("modes", st_mode, run_mode, quick=2400, desc="modes of the selected component against the maximiser of the reference density, saturated parameters included"),
    Sub("selection", st_sel, run_sel, quick=1600, desc="every drawn value comes from the selected component and repetition and lies in the support"),
]
