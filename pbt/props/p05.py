"""P05: unconditional and class-conditional samples follow the model density."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, stats
from ..core import Sub
from .. import sampling as sm

RULE = ("A case is an Einet configuration with seeded parameters and a class request (none, one class, a list of classes). "
        "Non-trivial: some sum node has at least two children.")
ASSUMPTIONS = ["statistical tests: a violation needs p < 1e-6 on one sample and again on an independent sample four times as large"]


@st.composite
def st_joint(draw, max_states=256):
    cfg = draw(gen.einet_cfg(wide="SIRK", max_states=max_states, max_K=4))
    mode = draw(st.sampled_from(["none", "int", "list"])) if cfg["K"] > 1 else "none"
    return {"cfg": cfg, "mode": mode, "k": draw(st.integers(0, cfg["K"] - 1)), "useed": draw(st.booleans())}


def sampler_of(m, case, **kw):
    cfg = case["cfg"]

    def draw(n, s):
        if case.get("useed", True):
            kw2 = dict(kw, seed=1000 + s)
        else:
            torch.manual_seed(77 + s)
            kw2 = dict(kw)
        if case["mode"] == "int":
            return m.sample(num_samples=n, class_index=case["k"], **kw2)
        return m.sample(num_samples=n, **kw2)

    return draw


def run_joint(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    ll = gen.forward_chunks(m, gen.all_states(cfg))
    t.label(*gen.labels(cfg))
    t.label("class=" + case["mode"])
    t.nontrivial(gen.nontrivial(cfg))
    if case["mode"] == "list":
        K = cfg["K"]
        n = 1500
        g = torch.Generator().manual_seed(cfg["seed"])
        for k in case.get("heads", range(K)):
            def draw(n_, s, k=k):
                classes = torch.randint(K, (n_ * 2,), generator=torch.Generator().manual_seed(s))
                classes[:n_] = k
                classes = classes[torch.randperm(2 * n_, generator=torch.Generator().manual_seed(s + 9))]
                x = m.sample(class_index=classes.tolist(), seed=50 + s + 10 * k)
                t.ok(tuple(x.shape) == (2 * n_, cfg["C"], cfg["F"]), f"class list of {2 * n_} entries gives shape {tuple(x.shape)}")
                return x[classes == k][:n_]
            sm.joint_test(cfg, ll[:, k].double().exp().numpy(), draw, t, f"samples for class {k} in a list", n=n)
        return
    probs = sm.head_mix(ll) if case["mode"] == "none" else ll[:, case["k"]].double().exp().numpy()
    sm.joint_test(cfg, probs, sampler_of(m, case), t, "samples" if case["mode"] == "none" else f"samples of class {case['k']}")


@st.composite
def st_heads(draw):
    """Many classes, a list of classes or one of them."""
    cfg = draw(gen.einet_cfg(max_states=64, max_F=4, sum_gains=(1.0, 2.5), leaf_gains=(1.0, 2.5)))
    cfg["K"] = draw(st.sampled_from([5, 11, 17, 33, 66, 130, 258]))
    heads = sorted({draw(st.integers(0, cfg["K"] - 1)), cfg["K"] - 1 - draw(st.integers(0, 2))})
    return {"cfg": cfg, "mode": draw(st.sampled_from(["int", "list", "list"])), "k": heads[-1], "heads": heads, "useed": draw(st.booleans())}


@st.composite
def st_few(draw):
    """The same distribution, from queries that ask for one, two or three samples each."""
    case = draw(st_joint(max_states=64))
    case["chunk"] = draw(st.sampled_from([1, 1, 2, 3]))
    if case["mode"] == "list":
        case["mode"] = "int"
    return case


def run_few(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    ll = gen.forward_chunks(m, gen.all_states(cfg))
    t.label(*gen.labels(cfg))
    t.label("class=" + case["mode"], "rows=%d" % case["chunk"])
    t.nontrivial(gen.nontrivial(cfg))
    probs = sm.head_mix(ll) if case["mode"] == "none" else ll[:, case["k"]].double().exp().numpy()
    sm.joint_test(cfg, probs, sm.in_chunks(sampler_of(m, case), case["chunk"]), t, f"samples drawn {case['chunk']} at a time", n=300)


@st.composite
def st_pairs(draw):
    cfg = draw(gen.einet_cfg(wide="SIR", max_states=None, min_F=4, max_F=20, max_C=2, max_I=5, max_S=5, max_R=3))
    cells = st.tuples(st.integers(0, cfg["C"] - 1), st.integers(0, cfg["F"] - 1))
    pairs = draw(st.lists(st.tuples(cells, cells).filter(lambda p: p[0] != p[1]), min_size=4, max_size=10, unique=True))
    return {"cfg": cfg, "pairs": [[list(a), list(b)] for a, b in pairs], "mode": "none" if cfg["K"] == 1 else draw(st.sampled_from(["none", "int"])),
            "k": draw(st.integers(0, cfg["K"] - 1))}


def run_pairs(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    pairs = [(tuple(a), tuple(b)) for a, b in case["pairs"]]
    sm.pair_test(cfg, m, pairs, sampler_of(m, case), t, "samples", mix=True if case["mode"] == "none" else case["k"])


@st.composite
def st_cont(draw):
    cfg = draw(gen.einet_cfg(kinds=("normal", "ratnormal"), discrete=False, max_states=None, max_F=6, max_C=2,
                             leaf_gains=(0.0, 0.5)))
    return {"cfg": cfg, "mode": "none" if cfg["K"] == 1 else draw(st.sampled_from(["none", "int"])),
            "k": draw(st.integers(0, cfg["K"] - 1)), "s": draw(gen.SEED)}


def cont_pair_counts(nodes, P, x):
    """Coarsen a fine probability grid to ~6x6 rectangles of similar mass and count samples in them."""
    mids = (nodes[1:] + nodes[:-1]) / 2
    def cuts(marg):
        c = np.cumsum(marg)
        idx = [int(np.searchsorted(c, q)) for q in (1 / 6, 2 / 6, 3 / 6, 4 / 6, 5 / 6)]
        return sorted(set(min(max(i, 0), len(mids) - 1) for i in idx))
    ia, ib = cuts(P.sum(1)), cuts(P.sum(0))
    sa = np.searchsorted(np.array(ia), np.arange(len(nodes)), side="left")
    sb = np.searchsorted(np.array(ib), np.arange(len(nodes)), side="left")
    pr = np.zeros((len(ia) + 1, len(ib) + 1))
    np.add.at(pr, (sa[:, None].repeat(len(nodes), 1), sb[None, :].repeat(len(nodes), 0)), P)
    # a sample belongs to the block of its nearest node
    na = np.searchsorted(mids, x[:, 0])
    nb = np.searchsorted(mids, x[:, 1])
    c = np.zeros_like(pr)
    np.add.at(c, (sa[na], sb[nb]), 1)
    return pr.ravel(), c.ravel()


def run_cont(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    mix = True if case["mode"] == "none" else case["k"]
    draw = sampler_of(m, case)
    cache = {}

    def sample(n, s):
        if (n, s) not in cache:
            x = draw(n, s)
            t.ok(tuple(x.shape) == (n, cfg["C"], cfg["F"]) and bool(torch.isfinite(x).all()), f"sample shape {tuple(x.shape)} or values")
            cache[(n, s)] = x
        return cache[(n, s)]

    for c in range(cfg["C"]):
        for f in range(cfg["F"]):
            nodes, cdf = sm.cell_cdf(cfg, m, (c, f), mix=mix)
            sm.ks_test(nodes, cdf, lambda n, s: sample(n, s)[:, c, f].numpy(), t, f"cell (c={c}, f={f})")
    g = np.random.RandomState(case["s"])
    cells = [(c, f) for c in range(cfg["C"]) for f in range(cfg["F"])]
    for _ in range(2):
        a, b = [cells[i] for i in g.choice(len(cells), 2, replace=False)]
        nodes, P = sm.pair_cont_probs(cfg, m, a, b, None, None, mix=mix)
        def counts(n, s):
            x = sample(n, s).numpy()
            return cont_pair_counts(nodes, P, np.stack([x[:, a[0], a[1]], x[:, b[0], b[1]]], 1))
        pr, c1 = counts(3000, 1)
        t.checks += 1
        if stats.chi2_p(pr, c1) < stats.P_CUT:
            pr, c2 = counts(12000, 2)
            t.ok(stats.chi2_p(pr, c2) >= stats.P_CUT, f"cells {a}, {b}: joint frequencies {np.round(c2 / c2.sum(), 4).tolist()} expected {np.round(pr, 4).tolist()}")


@st.composite
def st_reach(draw):
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, max_F=40, max_C=2, max_S=5, max_I=5, max_R=4, max_K=4,
                             leaf_gains=(0.0,), wide="SIRKCF", huge=True))
    mode = draw(st.sampled_from(["none", "int", "list"])) if cfg["K"] > 1 else "none"
    return {"cfg": cfg, "mode": mode, "k": draw(st.integers(0, cfg["K"] - 1)), "s": draw(gen.SEED), "sparse": draw(st.booleans()),
            "chunk": draw(st.sampled_from([24, 24, 12, 2, 1]))}


@st.composite
def st_many(draw):
    """Layers with more children per node than a byte or a power of two would count."""
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, max_F=6, max_C=1, max_S=4, max_I=4, max_R=2, max_K=2,
                             leaf_gains=(0.0,), wide="SIR", huge="always"))
    return {"cfg": cfg, "mode": "none", "k": 0, "s": draw(gen.SEED), "sparse": True, "chunk": 24}


def run_reach(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    sm.separated_normals(m)
    if case["sparse"]:
        sm.sparse_sums(m, case["s"])
    t.label(*gen.labels(cfg))
    t.label("sparse" if case["sparse"] else "dense")
    t.nontrivial(gen.nontrivial(cfg) and cfg["F"] > 2)
    n = 24
    heads = None
    k = case["chunk"]
    if case["mode"] == "list":
        heads = torch.randint(cfg["K"], (n,), generator=torch.Generator().manual_seed(case["s"]))
        x = torch.cat([m.sample(class_index=heads[i : i + k].tolist(), seed=case["s"] + i) for i in range(0, n, k)])
    elif case["mode"] == "int":
        heads = torch.full((n,), case["k"])
        x = torch.cat([m.sample(num_samples=k, class_index=case["k"], seed=case["s"] + i) for i in range(0, n, k)])
    else:
        x = torch.cat([m.sample(num_samples=k, seed=case["s"] + i) for i in range(0, n, k)])
    t.ok(tuple(x.shape) == (n, cfg["C"], cfg["F"]), f"shape {tuple(x.shape)}")
    ok, ll, per = sm.reachable(m, x, heads=heads)
    t.ok(bool(ok.all()), f"sample {x[~ok][:1].tolist()} cannot come from the model: log-density {ll[~ok][:1].tolist()}, a draw has about {per[~ok][:1].tolist()}")


@st.composite
def st_mvn(draw):
    card = draw(st.sampled_from([2, 2, 3]))
    F = card * draw(st.integers(1, 2)) if card == 2 else 3
    cfg = draw(gen.einet_cfg(leaf={"type": "mvn", "card": card}, min_F=F, max_F=F, max_C=1, max_states=None, max_K=2,
                             structs=gen.STRUCTS[:3], leaf_gains=(0.5,)))
    return {"cfg": cfg, "mode": "none"}


def mvn_moments(cfg, m):
    F = cfg["F"]
    h = 0.55 if F == 4 else 0.3
    a = torch.arange(-6.6, 6.6 + h / 2, h)
    g = torch.cartesian_prod(*([a] * F)).view(-1, 1, F)
    ll = torch.logsumexp(gen.forward_chunks(m, g).double(), 1)
    w = torch.softmax(ll, 0)
    x = g[:, 0].double()
    feats = lambda v: torch.cat([v, (v[:, :, None] * v[:, None, :])[:, *torch.triu_indices(F, F)]], 1)
    f = feats(x)
    mean = (w[:, None] * f).sum(0)
    var = (w[:, None] * (f - mean) ** 2).sum(0)
    return feats, mean, var


def run_mvn(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    with torch.no_grad():
        for n, p in m.named_parameters():
            if p.requires_grad and n.startswith("leaf"):
                p.clamp_(-0.45, 0.45) if "diag" in n else p.clamp_(-1.5, 1.5)
    t.label(*gen.labels(cfg))
    t.nontrivial(cfg["I"] > 1 or cfg["R"] > 1)
    feats, mean, var = mvn_moments(cfg, m)
    draw = sampler_of(m, case)

    def z(n, s):
        x = draw(n, s)
        t.ok(tuple(x.shape) == (n, 1, cfg["F"]), f"shape {tuple(x.shape)}")
        f = feats(x[:, 0].double())
        return (f.mean(0) - mean) / (var / n).sqrt()

    z1 = z(4000, 1)
    if z1.abs().max() > 6:
        z2 = z(16000, 2)
        t.ok(bool(z2.abs().max() < 6), f"first and second moments of the samples are off by up to {z2.abs().max().item():.1f} standard errors")
    t.checks += 1


# ------------------------------------------------------------ rows of one large call
@st.composite
def st_large(draw):
    cfg = draw(gen.einet_cfg(kinds=("bernoulli", "categorical", "binomial", "normal", "ratnormal"), max_states=None, max_F=6, max_C=2, max_S=3, max_I=3, max_R=3, max_K=3, discrete=None, leaf_gains=(0.7,)))
    return {"cfg": cfg, "mode": draw(st.sampled_from(["none", "int", "list"])) if cfg["K"] > 1 else "none", "k": draw(st.integers(0, cfg["K"] - 1)), "s": draw(gen.SEED),
            "n": draw(st.sampled_from([500, 1500, 4500, 9000, 17000, 40000]))}


def run_large(case, t):
    """Rows of one call are independent: no lag at which they agree more often than by chance, no repeated rows of continuous features."""
    cfg = case["cfg"]
    m = gen.build(cfg)
    t.label(*gen.labels(cfg))
    t.label("n=%d" % case["n"], case["mode"])
    t.nontrivial(case["n"] > 1000)
    n = case["n"]
    draw = sampler_of(m, case)
    cont = gen.leaf_values(cfg["leaf"]) is None if cfg["leaf"]["type"] != "multi" else False

    def peaks(seed):
        x = draw(n, seed)
        t.ok(tuple(x.shape) == (n, cfg["C"], cfg["F"]), f"sample shape {tuple(x.shape)}")
        flat = x.reshape(n, -1).double()
        if cont:
            u = len(flat[:, :2].unique(dim=0))
            t.ok(u >= n - n * n / 1e12 - 2, f"only {u} of {n} rows drawn in one call are distinct")
        z = torch.where(flat > flat.mean(0), 1.0, -1.0).double()
        z = z - z.mean(0)
        var = (z**2).mean(0)
        keep = var > 0.05
        if not bool(keep.any()):
            return None
        z = z[:, keep]
        f = torch.fft.rfft(z, n=2 * n, dim=0)
        ac = torch.fft.irfft(f.abs() ** 2, n=2 * n, dim=0)[1:n]  # sums of products at lags 1..n-1
        cnt = torch.arange(n - 1, 0, -1).double()[:, None]
        r = ac / (cnt.sqrt() * var[keep])
        r[cnt[:, 0] < 100] = 0
        return r.abs().amax(1)

    p = peaks(1)
    if p is None:
        t.reject()
    t.checks += 1
    lag = int(p.argmax())
    if float(p[lag]) > 6.5:
        q = peaks(2)
        t.ok(q is None or float(q[lag]) <= 6.5, f"rows {lag + 1} apart in a call of {n} samples are dependent (z={float(p[lag]):.1f})")


@st.composite
def st_modes(draw):
    cfg = draw(gen.einet_cfg(leaf={"type": "normal"}, max_states=None, max_F=6, max_C=2, leaf_gains=(0.0,)))
    return {"cfg": cfg, "mode": "none" if cfg["K"] == 1 else draw(st.sampled_from(["none", "int"])), "k": draw(st.integers(0, cfg["K"] - 1)),
            "diff": draw(st.booleans())}


def run_modes(case, t):
    """With modes at the leaves the branches are still drawn with their weights."""
    cfg = case["cfg"]
    m = gen.build(cfg)
    sm.separated_normals(m)
    t.label(*gen.labels(cfg))
    t.label("class=" + case["mode"], "differentiable" if case["diff"] else "index")
    kw = {} if case["mode"] == "none" else {"class_index": case["k"]}

    def draw(n, s):
        return m.sample(num_samples=n, mpe_at_leaves=True, seed=s, is_differentiable=case["diff"], **kw).detach()

    k = sm.mode_test(m, draw, t, "modes at the leaves", heads=True if case["mode"] == "none" else case["k"])
    t.nontrivial(gen.nontrivial(cfg) and k > 1)


SUBS = [
    Sub("joint", st_joint, run_joint, quick=260,
        desc="discrete models: joint frequencies of all states against exact probabilities, for no class / one class / a list of classes"),
    Sub("many-classes", st_heads, run_joint, quick=60, desc="up to 258 classes: joint frequencies for one class and for entries of a list of classes"),
    Sub("few-rows", st_few, run_few, quick=80, desc="discrete models: joint frequencies over many queries of one to three samples each"),
    Sub("pairs", st_pairs, run_pairs, quick=60, desc="larger discrete models: pairwise marginals against exact tables"),
    Sub("continuous", st_cont, run_cont, quick=48, desc="normal leaves: every marginal by KS, two joint histograms"),
    Sub("leaf-modes", st_modes, run_modes, quick=120, desc="modes at the leaves: combinations of leaf modes are drawn with the weights of their branches"),
    Sub("reachable", st_reach, run_reach, quick=240,
        desc="large models with narrow, far-apart normal leaves: every sample must be one the circuit can generate (same repetition, compatible components)"),
    Sub("many-children", st_many, run_reach, quick=60,
        desc="layers with 65 to 136 input channels or repetitions and only a few open children per sum node: every sample must be reachable"),
    Sub("large-calls", st_large, run_large, quick=60, desc="rows of one call of up to 40000 samples: autocorrelation at every lag, distinct rows of continuous features"),
    Sub("mvn", st_mvn, run_mvn, quick=24, desc="multivariate normal leaves: all first and second moments against quadrature"),
]
