"""P22: piecewise-linear leaves are normalised fits of their data and sample from it."""
import dataclasses
import sys

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, stats
from ..core import Sub
from .p19 import ctx_for, picker

RULE = ("A case is a data set (normal, bimodal, skewed, tied, constant, tiny, shifted and scaled features), a domain per feature (continuous, consecutive integers, arbitrary values), "
        "a smoothing strength and a leaf shape, or an Einet with such leaves. Non-trivial: more than one component, repetition, feature or channel.")
ASSUMPTIONS = ["fast_pytorch_kmeans is not installed: a stand-in with the same interface (Lloyd's algorithm) supplies the clusters, the oracle reads its assignments",
               "outside its support the leaf reports the documented floor of -300 instead of minus infinity",
               "initialisation data is finite; data exactly on a bin edge may be counted on either side",
               "statistical tests: a violation needs p < 1e-6 twice, on independent samples"]
NAN = float("nan")


def kmeans():
    return sys.modules["fast_pytorch_kmeans"].KMeans


# ------------------------------------------------------------ generation
@st.composite
def st_domain(draw, kinds=("cont", "range", "bins"), max_k=6):
    t = draw(st.sampled_from(kinds))
    if t == "cont":
        return {"t": t, "inf": draw(st.booleans()), "shape": draw(st.sampled_from(["normal", "bimodal", "skew", "tied", "const", "uniform"])),
                "loc": draw(st.sampled_from([0.0, 0.0, 5.0, -40.0])), "scale": draw(st.sampled_from([1.0, 1.0, 0.01, 30.0]))}
    if t == "range":
        lo = draw(st.sampled_from([0, 0, 1, -3, 10]))
        return {"t": t, "values": list(range(lo, lo + draw(st.integers(1, max_k))))}
    v = sorted(draw(st.lists(st.integers(-6, 12), min_size=1, max_size=max_k, unique=True)))
    h = draw(st.sampled_from([1, 0.5]))
    return {"t": t, "values": [x * h for x in v]}


@st.composite
def st_leaf(draw, kinds=("cont", "range", "bins"), max_F=3, max_C=3, max_L=3, max_R=2, sizes=(3, 8, 40, 150), max_k=6):
    L = draw(st.integers(1, max_L))
    return {"leaf": {"type": "pwl"}, "dom": [draw(st_domain(kinds, max_k)) for _ in range(draw(st.integers(1, max_F)))], "C": draw(st.integers(1, max_C)), "L": L,
            "R": draw(st.integers(1, max_R)), "n": max(L, draw(st.sampled_from(sizes))), "alpha": draw(st.sampled_from([0.0, 0.0, 0.1, 1.0, 5.0, 0.001, 0.01])),
            "seed": draw(gen.SEED), "few": draw(st.integers(0, 3)) == 0, "strided": draw(st.integers(0, 3)) == 0}


def make_data(case):
    g = torch.Generator().manual_seed(case["seed"])
    n, C, F = case["n"], case["C"], len(case["dom"])
    x = torch.empty(n, C, F)
    for f, d in enumerate(case["dom"]):
        for c in range(C):
            if d["t"] == "cont":
                z = torch.randn(n, generator=g)
                s = d["shape"]
                if s == "bimodal":
                    z = 0.4 * z + 3.0 * (torch.rand(n, generator=g) < 0.4)
                elif s == "skew":
                    z = z.exp().clamp(max=8)
                elif s == "tied":
                    z = (z * 2).round() / 2
                elif s == "const":
                    z = torch.zeros(n) + float(torch.randint(3, (1,), generator=g))
                elif s == "uniform":
                    z = torch.rand(n, generator=g)
                x[:, c, f] = z * d["scale"] + d["loc"]
            else:
                v = torch.tensor(d["values"], dtype=torch.float32)
                w = torch.rand(len(v), generator=g) ** 2 + (0.05 if not case["few"] else 0.0)
                if case["few"] and len(v) > 1:
                    w[int(torch.randint(len(v), (1,), generator=g))] = 0.0
                x[:, c, f] = v[torch.multinomial(w + 1e-9, n, replacement=True, generator=g)]
    if case["few"]:  # few distinct rows: empty clusters
        x = x[torch.arange(n) % 2]
    return x


def domains(case):
    from simple_einet.dist import Domain

    out = []
    for d in case["dom"]:
        if d["t"] == "cont":
            out.append(Domain.continuous_inf_support() if d["inf"] else Domain.continuous_range(-1e6, 1e6))
        elif d["t"] == "range":
            out.append(Domain.discrete_range(d["values"][0], d["values"][-1]))
        else:
            out.append(Domain.discrete_bins(list(d["values"])))
    return out


def assignments(K, data, call):
    """Run call() and return the cluster of every row in every k-means fit, in order."""
    K.instances = []
    try:
        res = call()
        got = [k.predict(data.reshape(len(data), -1).float()) for k in K.instances]
    finally:
        K.instances = None
    return res, got


def make_leaf(case):
    from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear

    data = make_data(case)
    m = PiecewiseLinear(num_features=len(case["dom"]), num_channels=case["C"], num_leaves=case["L"], num_repetitions=case["R"], alpha=case["alpha"])
    init = data.permute(2, 0, 1).contiguous().permute(1, 2, 0) if case["strided"] else data.clone()
    torch.manual_seed(case["seed"])
    _, asg = assignments(kmeans(), data, lambda: m.initialize(init, domains(case)))
    return m, data, asg


def label(case, t):
    t.label(*{"domain=" + d["t"] for d in case["dom"]}, "alpha>0" if case["alpha"] else "alpha=0", "L>1" if case["L"] > 1 else "L=1", "R>1" if case["R"] > 1 else "R=1")
    t.nontrivial(case["L"] * case["R"] * case["C"] * len(case["dom"]) > 1)


def edges_of(v):
    """Bin edges numpy would use, or None if their number depends on rounding."""
    v = np.asarray(v, float)
    if len(v) == 0:
        return np.array([0.0, 1.0])
    lo, hi = v.min(), v.max()
    if lo == hi:
        return np.array([lo - 0.5, hi + 0.5])
    fd = 2.0 * np.subtract(*np.percentile(v, [75, 25])) * len(v) ** (-1 / 3)
    st_ = (hi - lo) / (np.log2(len(v)) + 1)
    if 0 < fd < 1e-5 * (hi - lo):
        return None
    q = (hi - lo) / (min(fd, st_) if fd else st_)
    if abs(q - round(q)) < 1e-3:
        return None
    k = int(np.ceil(q))
    if k > 5000:
        return None
    return np.linspace(lo, hi, k + 1)


def reference(case, d, v):
    """Expected (xs, ys) of a continuous leaf / (values, probabilities) of a discrete one, or None if it depends on rounding."""
    a = case["alpha"]
    v = np.asarray(v, float)
    if d["t"] != "cont":
        vals = np.asarray(d["values"], float)
        cnt = np.array([(v == x).sum() for x in vals], float)
        w = cnt + a
        if w.sum() == 0:
            w = np.ones(len(vals))
        return vals, w / w.sum()
    e = edges_of(v)
    if e is None:
        return None
    if len(v):
        if (np.abs(v[:, None] - e[None, 1:-1]) < 1e-4 * (e[-1] - e[0]) + 4e-7 * np.abs(e).max()).any():
            return None
        w = np.histogram(v, e)[0] + a
    else:
        w = np.ones(len(e) - 1)
    xs = np.concatenate([[e[0]], (e[1:] + e[:-1]) / 2, [e[-1]]])
    ys = np.concatenate([[0.0], w, [0.0]])
    return xs, ys / np.trapezoid(ys, xs) if hasattr(np, "trapezoid") else ys / np.trapz(ys, xs)


def density(m, x):
    """exp of the leaf's log-density of x [N] for every cell: [C, F, L, R, N]."""
    with torch.no_grad():
        inp = torch.as_tensor(x, dtype=torch.float32).view(-1, 1, 1).expand(-1, m.num_channels, m.num_features)
        return m(inp.contiguous(), None).double().exp().permute(1, 2, 3, 4, 0).numpy()


# ------------------------------------------------------------ fit
def run_fit(case, t):
    m, data, asg = make_leaf(case)
    label(case, t)
    C, F, L, R = case["C"], len(case["dom"]), case["L"], case["R"]
    t.ok(len(asg) == R, f"{len(asg)} clusterings for {R} repetitions")
    w = m.mixture_weights
    for r in range(R):
        want = torch.bincount(asg[r], minlength=L).float() / case["n"]
        t.ok(tuple(w.shape) == (R, L) and torch.allclose(w[r].float(), want, atol=1e-5), f"mixture weights {w[r].tolist()} for clusters of relative size {want.tolist()}")
    for f, d in enumerate(case["dom"]):
        for c in range(C):
            for r in range(R):
                for l in range(L):
                    v = data[asg[r] == l, c, f].numpy()
                    who = f"feature {f} ({d['t']}) channel {c} component {l} repetition {r} ({len(v)} rows)"
                    ref = reference(case, d, v)
                    if d["t"] != "cont":
                        vals, p = ref
                        got = density(m, vals)[c, f, l, r]
                        t.ok(np.allclose(got, p, rtol=1e-4, atol=1e-6 + 5e-7 * float(np.abs(vals).max())), f"{who}: probabilities {got.tolist()} of {vals.tolist()}, expected {p.tolist()}")
                        t.ok(abs(got.sum() - 1) < 1e-4, f"{who}: probabilities sum to {got.sum()}")
                        continue
                    # properties that need no knowledge of the bins
                    lo, hi = (v.min(), v.max()) if len(v) else (0.0, 1.0)
                    if lo == hi:
                        lo, hi = lo - 0.5, hi + 0.5
                    if hi - lo < 1e-4 * max(abs(lo), abs(hi)):
                        t.label("narrow")
                        continue
                    if ref is None:
                        t.label("bins-depend-on-rounding")
                        k = 4001
                        g = np.linspace(lo, hi, k)
                        y = density(m, g)[c, f, l, r]
                        t.ok(bool(np.isfinite(y).all() and (y >= 0).all()), f"{who}: densities not finite and non-negative")
                        if len(v) < 60:
                            area = np.sum((y[1:] + y[:-1]) / 2) * (g[1] - g[0])
                            t.ok(abs(area - 1) < 0.02, f"{who}: the density integrates to {area}")
                        continue
                    xs, ys = ref
                    g = np.unique(np.concatenate([xs, (xs[1:] + xs[:-1]) / 2, xs[0] + (xs[-1] - xs[0]) * np.array([0.013, 0.27, 0.61, 0.983])]))
                    got = density(m, g)[c, f, l, r]
                    slope = np.abs(np.diff(ys) / np.diff(xs)).max()
                    tol = 1e-4 * ys.max() + slope * (4e-7 * max(abs(lo), abs(hi)) + 2e-8)
                    err = np.abs(got - np.interp(g, xs, ys))
                    t.ok(bool((err <= tol).all()), f"{who}: density {got[err.argmax()]} at {g[err.argmax()]}, expected {np.interp(g, xs, ys)[err.argmax()]}")
                    out = density(m, np.array([lo - 1e-2 * (hi - lo), hi + 1e-2 * (hi - lo), lo - 100, hi + 100]))[c, f, l, r]
                    t.ok(bool((out < 1e-100).all()), f"{who}: density {out.tolist()} outside of the range of the data")
    # missing values
    x = data[:3].clone()
    x[0] = NAN
    with torch.no_grad():
        full = m(data[:3].clone(), None)
        y = m(x, None)
        t.ok(bool((y[0] == 0).all()) and torch.equal(y[1:], full[1:]), "missing values do not marginalise")
        if F > 1:
            z = m(data[:3].clone(), [F - 1])
            t.ok(bool((z[:, :, F - 1] == 0).all()) and torch.equal(z[:, :, : F - 1], full[:, :, : F - 1]), "marginalised scopes do not marginalise")
    t.ok(bool(torch.isfinite(full).all()), "the log-density of the data is not finite")


# ------------------------------------------------------------ samples and modes
def run_sample(case, t):
    m, data, asg = make_leaf(case)
    label(case, t)
    C, F, L, R = case["C"], len(case["dom"]), case["L"], case["R"]
    cc = {"leaf": {}, "F": F, "C": C, "L": L, "R": R}
    cache = {}

    def draw(n, s):
        if (n, s) not in cache:
            ctx, out, rep = ctx_for(cc, n, case["seed"] + s, is_differentiable=bool(case["seed"] % 3 == 0))
            torch.manual_seed(case["seed"] ^ (s * 7919))
            with torch.no_grad():
                x = m.sample(ctx)
            t.ok(tuple(x.shape) == (n, C, F), f"samples of shape {tuple(x.shape)}, expected {(n, C, F)}")
            t.ok(bool(torch.isfinite(x).all()), "samples are not finite")
            cache[(n, s)] = (x.double().numpy(), out.numpy(), rep.numpy())
        return cache[(n, s)]

    N = 1500
    for f, d in enumerate(case["dom"]):
        for c in range(C):
            for r in range(R):
                for l in range(L):
                    v = data[asg[r] == l, c, f].numpy()
                    who = f"feature {f} ({d['t']}) channel {c} component {l} repetition {r}"
                    pick = lambda n, s: (lambda x, o, rp: x[(o[:, f] == l) & (rp == r), c, f])(*draw(n, s))
                    if d["t"] != "cont":
                        vals = np.asarray(d["values"], float)
                        p = density(m, vals)[c, f, l, r]

                        def counts(n, s):
                            x = pick(n, s)
                            eq = x[:, None] == vals[None]
                            t.ok(bool(eq.any(1).all()), f"{who}: samples outside of the domain {vals.tolist()}: {x[~eq.any(1)][:3].tolist()}")
                            return eq.sum(0)

                        ok, det = stats.two_stage(counts, p, N, 4 * N)
                        t.ok(ok, f"{who}: samples do not follow the probabilities of the leaf (p={det})")
                        continue
                    lo, hi = (v.min(), v.max()) if len(v) else (0.0, 1.0)
                    if lo == hi:
                        lo, hi = lo - 0.5, hi + 0.5
                    if hi - lo < 1e-3 * max(abs(lo), abs(hi)):
                        t.label("narrow")
                        continue
                    # distribution function by numerical integration of the leaf's own density
                    g = np.linspace(lo, hi, 4001)
                    y = density(m, g)[c, f, l, r]
                    cum = np.concatenate([[0.0], np.cumsum((y[1:] + y[:-1]) / 2)])
                    if cum[-1] * (g[1] - g[0]) < 0.98:
                        t.label("many-bins")
                        continue
                    cum /= cum[-1]

                    def bins(n, s):
                        x = pick(n, s)
                        t.ok(bool((x >= lo - 1e-3 * (hi - lo)).all() and (x <= hi + 1e-3 * (hi - lo)).all()), f"{who}: samples outside of the range of the data")
                        return np.bincount((np.interp(x, g, cum) * 12).astype(int).clip(0, 11), minlength=12)

                    ok, det = stats.two_stage(bins, np.full(12, 1 / 12), N, 4 * N)
                    t.ok(ok, f"{who}: samples do not follow the density of the leaf (p={det})")
    # modes
    for kw in ({"is_mpe": True}, {"mpe_at_leaves": True}):
        ctx, out, rep = ctx_for(cc, 5, case["seed"], **kw)
        with torch.no_grad():
            x = m.sample(ctx)
        t.ok(tuple(x.shape) == (5, C, F), f"modes of shape {tuple(x.shape)}, expected {(5, C, F)}")
        for f, d in enumerate(case["dom"]):
            for c in range(C):
                for i in range(5):
                    l, r, v = int(out[i, f]), int(rep[i]), float(x[i, c, f])
                    got = density(m, np.array([v]))[c, f, l, r, 0]
                    if d["t"] != "cont":
                        best = density(m, np.asarray(d["values"], float))[c, f, l, r].max()
                        t.ok(v in [float(np.float32(z)) for z in d["values"]], f"feature {f}: mode {v} is not in the domain")
                    else:
                        u = data[asg[r] == l, c, f].numpy()
                        lo, hi = (u.min(), u.max()) if len(u) else (0.0, 1.0)
                        if lo == hi:
                            lo, hi = lo - 0.5, hi + 0.5
                        if hi - lo < 1e-3 * max(abs(lo), abs(hi)):
                            continue
                        best = density(m, np.linspace(lo, hi, 1501))[c, f, l, r].max()
                    t.ok(got >= best * (1 - 2e-3), f"feature {f} channel {c} component {l} repetition {r}: the density is {got} at the mode {v} and {best} elsewhere")


# ------------------------------------------------------------ Einets
@st.composite
def st_einet(draw):
    cfg = draw(gen.einet_cfg(kinds=("bernoulli",), with_multi=False, max_states=256, max_F=4, max_I=3, max_R=2, max_S=3, max_K=2, max_C=3))
    case = draw(st_leaf(kinds=("range", "bins"), max_k=3))
    case["dom"] = [draw(st_domain(("range", "bins"), 3)) for _ in range(cfg["F"])]
    case.update(C=cfg["C"], L=cfg["I"], R=cfg["R"], n=max(cfg["I"], case["n"]), cfg=cfg, p=draw(st.sampled_from([0.3, 0.7])))
    return case


def run_einet(case, t):
    from simple_einet.einet import Einet
    from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear

    cfg = case["cfg"]
    label(case, t)
    t.label(*gen.labels(cfg))
    conf = gen.einet_config(cfg)
    conf = dataclasses.replace(conf, leaf_type=PiecewiseLinear, leaf_kwargs={"alpha": case["alpha"]})
    gen.seed_all(cfg["seed"])
    m = Einet(conf).eval()
    gen.perturb(m, cfg["seed"], cfg["gs"], 0.0)
    data = make_data(case)
    leaf = m.leaf.base_leaf if hasattr(m.leaf, "base_leaf") else m.leaf
    leaf.initialize(data, domains(case))
    C, F, K = cfg["C"], cfg["F"], cfg["K"]
    dom = [list(d["values"]) for d in case["dom"]]
    cols = [torch.tensor(dom[f], dtype=torch.float32) for _ in range(C) for f in range(F)]
    grid = (torch.cartesian_prod(*cols) if len(cols) > 1 else cols[0].view(-1, 1)).view(-1, C, F)
    if len(grid) > 5000:
        t.reject()
    lp = gen.forward_chunks(m, grid).double()
    tot = lp.exp().sum(0)
    t.ok(bool(((tot - 1).abs() < 1e-3).all()), f"the probabilities of all joint values sum to {tot.tolist()}")
    # marginals and conditionals
    e = grid[torch.randint(len(grid), (1,), generator=torch.Generator().manual_seed(case["seed"]))].clone()
    e = data[:1].clone()
    miss = torch.rand(e.shape, generator=torch.Generator().manual_seed(case["seed"])) < case["p"]
    e[miss] = NAN
    agree = ((grid == e) | miss).all(-1).all(-1)
    marg = gen.forward_chunks(m, e).double()[0]
    want = torch.logsumexp(lp[agree], 0)
    t.ok(bool(((marg - want).abs() < 1e-2).all() or (want < -80).any()), f"log-likelihood {marg.tolist()} of a partial observation, expected {want.tolist()}")
    joint = torch.softmax(torch.logsumexp(lp, 1), 0)
    jobs = [("unconditional", torch.softmax(lp, 0).mean(1), lambda n, s: m.sample(num_samples=n, seed=s))]
    if float(torch.logsumexp(lp[agree].flatten(), 0)) > -60:
        cond = joint * agree
        jobs.append(("conditional", cond / cond.sum(), lambda n, s: m.sample(evidence=e.expand(n, -1, -1).clone(), seed=s)))
    for name, p, call in jobs:
        def draw(n, s):
            x = call(n, case["seed"] + s)
            t.ok(tuple(x.shape) == (n, C, F), f"{name}: samples of shape {tuple(x.shape)}")
            idx = stats.state_index(dom, C, x)
            t.ok(bool((idx >= 0).all()), f"{name}: samples outside of the domain: {x[idx < 0][:2].tolist()}")
            return np.bincount(idx.numpy(), minlength=len(grid))

        ok, det = stats.two_stage(draw, p.numpy(), 1500)
        t.ok(ok, f"{name} samples of an Einet with piecewise-linear leaves do not follow its density (p={det})")
    x = m.sample(evidence=e.clone(), is_mpe=True)
    t.ok(bool((x[~miss] == e[~miss]).all()) and bool((stats.state_index(dom, C, x) >= 0).all()), "the MPE changes the evidence or leaves the domain")
    x = m.sample(num_samples=2, is_mpe=True)
    t.ok(bool((stats.state_index(dom, C, x) >= 0).all()), "the MPE leaves the domain")


# ------------------------------------------------------------ use before initialisation, reset
@st.composite
def st_life(draw):
    return draw(st_leaf(sizes=(8,)))


def run_life(case, t):
    from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear

    label(case, t)
    C, F = case["C"], len(case["dom"])
    m = PiecewiseLinear(num_features=F, num_channels=C, num_leaves=case["L"], num_repetitions=case["R"], alpha=case["alpha"])

    def rejected(mod):
        try:
            mod(torch.zeros(2, C, F), None)
        except ValueError:
            return True
        return False

    t.ok(rejected(m), "an uninitialised leaf reports densities")
    m2, data, _ = make_leaf(case)
    with torch.no_grad():
        a = m2(data.clone(), None)
        m2.reset()
        t.ok(rejected(m2), "a reset leaf reports densities")
        torch.manual_seed(case["seed"])
        before = data.clone()
        assignments(kmeans(), data, lambda: m2.initialize(data, domains(case)))
        t.ok(torch.equal(before, data), "initialisation changes the data")
        t.ok(torch.equal(a, m2(data.clone(), None)), "initialising again with the same data and random state gives another density")


SUBS = [
    Sub("fit", st_leaf, run_fit, quick=1600, desc="densities against NumPy histograms of the clusters (knots, between and outside), probabilities, mixture weights, missing values"),
    Sub("sample", lambda: st_leaf(sizes=(8, 40)), run_sample, quick=500, desc="leaf samples against the leaf's own density, per component; modes are maximisers in the domain"),
    Sub("einet", st_einet, run_einet, quick=400, desc="Einets with discrete piecewise-linear leaves: normalisation, marginals, joint and conditional samples, MPE"),
    Sub("life", st_life, run_life, quick=150, desc="uninitialised and reset leaves are rejected, initialisation is repeatable and leaves the data alone"),
]
