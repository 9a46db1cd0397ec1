"""P34: a built circuit has the size and the random structure its configuration asks for."""
import copy
from unittest import mock

import numpy as np
import torch
from hypothesis import strategies as st

from .. import conv as convgen
from .. import gen
from ..core import Sub
from . import p03

RULE = ("A case is an Einet configuration (size: any; regions: few features, built many times) and a seed. Non-trivial: some sum node "
        "has at least two children (regions: at least two leaf regions; extreme: every case).")
ASSUMPTIONS = ["features of one region are recognised by equal sensitivities of the log-likelihood to their components' log-densities "
               "(free leaf log-densities, float64), not by looking at internals",
               "frequencies over constructions are judged by two-stage exact binomial tests at 1e-6 divided by the number of pairs"]


# ---------------------------------------------------------------- size
def leaf_params(leaf, C, F, I, R):
    n = C * F * I * R
    t = leaf["type"]
    if t in ("normal", "ratnormal"):
        return 2 * n
    if t in ("bernoulli", "binomial"):
        return n
    if t == "categorical":
        return n * leaf["bins"]
    if t == "multi":
        return sum(leaf_params(p["leaf"], C, len(p["scopes"]), I, R) for p in leaf["parts"])
    raise KeyError(t)


def expected_params(cfg):
    """Trainable parameters of the documented structure."""
    D, S, I, R, K, F = cfg["depth"], cfg["S"], cfg["I"], cfg["R"], cfg["K"], cfg["F"]
    n = leaf_params(cfg["leaf"], cfg["C"], F, I, R)
    if cfg["struct"] == "top-down":
        for i in range(1, D + 1):
            sin = S if i < D else I
            sout = K if i == 1 else S
            regions = 2 ** (i - 1)
            n += regions * sout * R * {"linsum": sin, "linsum2": 2 * sin, "einsum": sin * sin}[cfg["layer"]]
        if D == 0:
            n += I * K * R
        if R > 1:
            n += R * K
    else:
        f, sin = F, I
        for _ in range(D):
            f = -(-f // 2)
            n += f * sin * S * R
            sin = S
        n += f * sin * K * R
        if R > 1:
            n += R * K
    return n


@st.composite
def st_size(draw):
    leaf = draw(st.sampled_from([None, None, {"type": "normal"}, {"type": "ratnormal", "min_sigma": 0.1, "max_sigma": 1.0}]))
    cfg = draw(gen.einet_cfg(wide="SIRKCF", huge=True, leaf=leaf, max_states=None, max_F=40, max_C=3, max_S=7, max_I=7, max_R=5, max_K=5, sum_gains=(0.0,), leaf_gains=(0.0,)))
    return {"cfg": cfg, "n": draw(st.integers(1, 3))}


def run_size(case, t):
    from simple_einet.einet import Einet

    cfg = case["cfg"]
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    config = gen.einet_config(cfg)
    keep = copy.deepcopy(config.__dict__)
    gen.seed_all(cfg["seed"])
    m = Einet(config)
    n = sum(p.numel() for p in m.parameters() if p.requires_grad)
    t.ok(n == expected_params(cfg), f"{n} trainable parameters, the configuration asks for {expected_params(cfg)}")
    t.ok(repr(config.__dict__) == repr(keep), "construction changed the configuration object")
    # every trainable parameter takes part: perturbing it changes some head on some input (softmax invariances aside)
    gen.seed_all(cfg["seed"])
    m2 = Einet(gen.einet_config(cfg))
    gen.seed_all(cfg["seed"] ^ 0x55555)
    m3 = Einet(gen.einet_config(cfg))
    a, b, c = m.state_dict(), m2.state_dict(), m3.state_dict()
    t.ok(set(a) == set(b) == set(c), "state dictionaries of two constructions have different entries")
    t.ok(all(torch.equal(a[k], b[k]) for k in a), lambda: f"equal seeds give different {[k for k in a if not torch.equal(a[k], b[k])]}")
    names = [k for k, p in m.named_parameters() if p.requires_grad and p.numel() >= 4]
    same = [k for k in names if torch.equal(a[k], c[k])]
    t.ok(not same, f"different seeds give equal initial values of {same}")
    bad = [k for k, p in m.named_parameters() if not bool(torch.isfinite(p).all())]
    t.ok(not bad, f"initial values of {bad} are not finite")
    x = sample_data(cfg, case["n"])
    with torch.no_grad():
        ll = m(x)
    t.ok(tuple(ll.shape) == (case["n"], cfg["K"]) and bool(torch.isfinite(ll).all()), f"initial log-likelihoods {ll.tolist()}")
    # initial symmetry is broken: components, outputs and repetitions of a parameter tensor all start differently
    for k, p in m.named_parameters():
        if not p.requires_grad:
            continue
        q = p.detach()
        for d in range(q.dim()):
            if q.shape[d] > 1 and q.numel() // q.shape[d] >= 3:
                s = q.movedim(d, 0).flatten(1)
                t.ok(not bool((s[1:] == s[:1]).all(1).any()), f"initial values of {k} coincide along dimension {d}")


def sample_data(cfg, n):
    g = np.random.RandomState(cfg["seed"] % 2**32)
    x = np.zeros((n, cfg["C"], cfg["F"]), np.float32)
    for f, dom in enumerate(gen.domain(cfg)):
        x[:, :, f] = g.randn(n, cfg["C"]) if dom is None else g.choice(dom, (n, cfg["C"]))
    return torch.tensor(x)


# ---------------------------------------------------------------- rare random numbers
@st.composite
def st_extreme(draw):
    if draw(st.integers(0, 3)) == 3:
        return {"conv": draw(convgen.conv_cfg(max_cells=None, max_states=None, gains=(0.0,))), "n": 2, "p": draw(st.sampled_from([0.02, 0.2])), "s": draw(gen.SEED)}
    cfg = draw(gen.einet_cfg(max_states=None, max_F=12, max_C=2, sum_gains=(0.0,), leaf_gains=(0.0,)))
    return {"cfg": cfg, "n": draw(st.integers(1, 3)), "p": draw(st.sampled_from([0.02, 0.2])), "s": draw(gen.SEED)}


def rare_rand(p, seed):
    """torch.rand draws from [0, 1), zero included: make its smallest and largest values frequent."""
    real, g = torch.rand, torch.Generator().manual_seed(seed)

    def rand(*a, **k):
        u = real(*a, **k)
        v = real(u.shape, generator=g)
        with torch.no_grad():
            u[v < p] = 0.0
            u[v > 1 - p] = 1 - 2.0**-24
        return u

    return mock.patch.object(torch, "rand", rand)


def run_extreme(case, t):
    from simple_einet.einet import Einet

    conv = case.get("conv")
    with rare_rand(case["p"], case["s"]):
        if conv:
            m = convgen.build(dict(conv, seed=5 * (conv["seed"] // 5) + 1))
        else:
            gen.seed_all(case["cfg"]["seed"])
            m = Einet(gen.einet_config(case["cfg"]))
    m.eval()
    t.label("ConvPc" if conv else case["cfg"]["struct"] + "/" + case["cfg"]["layer"])
    t.nontrivial(True)
    bad = [k for k, p in m.named_parameters() if not bool(torch.isfinite(p).all())]
    t.ok(not bad, f"initial values of {bad} are not finite when torch.rand returns its smallest or largest value")
    x = gen.random_states(conv or case["cfg"], case["n"], 3)
    if conv:
        x = x.reshape(-1, conv["C"], conv["H"], conv["W"])
    ll = m(x)
    t.ok(bool(torch.isfinite(ll).all()), f"initial log-likelihoods {ll.tolist()}")
    ll.sum().backward()
    bad = [k for k, p in m.named_parameters() if p.grad is not None and not bool(torch.isfinite(p.grad).all())]
    t.ok(not bad, f"gradients of {bad} are not finite")
    if not conv:
        for kw in ({"is_differentiable": True}, {"is_differentiable": True, "is_mpe": True}, {}):
            y = m.sample(num_samples=case["n"], **kw)
            t.ok(bool(torch.isfinite(y).all()), f"sample({kw}) of the fresh model is not finite")


# ---------------------------------------------------------------- random regions
@st.composite
def st_regions(draw):
    struct, layer = draw(st.sampled_from(gen.STRUCTS))
    F = draw(st.integers(4, 11))
    dmax = int(np.log2(F))
    return {"reseed": draw(st.booleans()), "F": F, "C": draw(st.integers(1, 2)), "S": draw(st.integers(2, 3)), "I": draw(st.integers(3, 4)), "R": draw(st.integers(1, 3)), "K": 1,
            "depth": draw(st.integers(1, dmax)), "struct": struct, "layer": layer, "seed": draw(gen.SEED), "gs": 1.0}


def grouping(cfg, seed):
    """labels [R, F]: features of one sum input (leaf region, or pair of sibling regions for linsum) share a label."""
    m, leaf = p03.make(dict(cfg, seed=seed), reseed=cfg["reseed"])
    m = m.double()
    g = torch.Generator().manual_seed(seed ^ 0xABC)
    tab = (0.7 * torch.randn(1, cfg["C"], cfg["F"], cfg["I"], cfg["R"], generator=g, dtype=torch.float64)).requires_grad_(True)
    leaf.table = tab
    out = m(torch.zeros(1, cfg["C"], cfg["F"], dtype=torch.float64))
    (gr,) = torch.autograd.grad(out.sum(), tab)
    v = gr[0, 0].detach().numpy()  # [F, I, R]
    lab = np.zeros((cfg["R"], cfg["F"]), int)
    for r in range(cfg["R"]):
        w = v[:, :, r] / v[:, :, r].sum(1, keepdims=True)
        d = np.abs(w[:, None] - w[None]).max(-1) < 1e-8
        lab[r] = d.argmax(1)
    return lab


def run_regions(case, t):
    from scipy.stats import binom

    cfg = dict(case)
    F, R, D = cfg["F"], cfg["R"], cfg["depth"]
    t.label("reseeded" if cfg["reseed"] else "built one after the other")
    t.label(cfg["struct"] + "/" + cfg["layer"], f"depth={D}", "uneven" if F % 2**D else "even", f"R={R}")
    t.nontrivial(D >= 1)
    pairs = [(f, g) for f in range(F) for g in range(f + 1, F)]

    def collect(M, base):
        same = np.zeros((M, R, len(pairs)), bool)
        q = np.zeros((M, R))
        gen.seed_all((cfg["seed"] + base) % 2**31)  # one seed before all constructions, or one before each
        for i in range(M):
            lab = grouping(cfg, (cfg["seed"] + base + i) % 2**31)
            for r in range(R):
                _, cnt = np.unique(lab[r], return_counts=True)
                if cfg["struct"] == "bottom-up":
                    want = [1] * (F % 2) + [2] * (F // 2)
                    t.ok(sorted(cnt.tolist()) == want, f"first-level pairs of sizes {sorted(cnt.tolist())}, expected {want}")
                else:
                    b, rest = F // 2**D, F % 2**D
                    if cfg["layer"] == "linsum":
                        ok = len(cnt) == 2 ** (D - 1) and cnt.min() >= 2 * b and cnt.max() <= 2 * b + 2 * (rest > 0)
                    else:
                        ok = sorted(cnt.tolist()) == [b] * (2**D - rest) + [b + 1] * rest
                    t.ok(ok, f"repetition {r}: region sizes {sorted(cnt.tolist())} for {F} features at depth {D}")
                q[i, r] = (cnt * (cnt - 1)).sum() / (F * (F - 1))
                same[i, r] = [lab[r][f] == lab[r][g] for f, g in pairs]
        return same, q

    def worst(same, q):
        M = len(same)
        out = []
        for r in range(R):
            k = same[:, r].sum(0)
            qm = q[:, r].mean()
            for j in range(len(pairs)):
                out.append((two_sided(k[j], M, qm), f"repetition {r}: features {pairs[j]} share a region in {k[j]} of {M} constructions, expected {M * qm:.1f}"))
        if R == 1:
            return min(out), len(out)
        k = (same[:, 0] & same[:, 1]).sum()
        qq = (q[:, 0] * q[:, 1]).mean() * len(pairs)
        # number of pairs together in both repetitions: mean qq per construction, compared by a normal bound on the mean
        per = (same[:, 0] & same[:, 1]).sum(1)
        sd = max(per.std(), 0.3) / np.sqrt(M)
        z = abs(per.mean() - qq) / sd
        from scipy.stats import norm

        out.append((2 * norm.sf(z), f"{k} pairs together in both repetitions over {M} constructions, expected {qq * M:.1f}: repetitions are not independent"))
        return min(out), len(out)

    def two_sided(k, M, p):
        if p >= 1 - 1e-12:
            return 1.0 if k == M else 0.0
        return min(1.0, 2 * min(binom.cdf(k, M, p), binom.sf(k - 1, M, p)))

    (p1, msg), n = worst(*collect(60, 0))
    t.checks += n
    if p1 < 1e-6 / n:
        (p2, msg), n = worst(*collect(240, 10**6))
        t.ok(p2 >= 1e-6 / n, msg + f" (p={p2:.1e})")


# ---------------------------------------------------------------- many repetitions
@st.composite
def st_many(draw):
    struct, layer = draw(st.sampled_from(gen.STRUCTS))
    depth = draw(st.integers(3 if layer == "linsum" else 2, 3))
    return {"reseed": draw(st.booleans()), "F": draw(st.integers(16, 24)), "C": 1, "S": 2, "I": 3, "R": draw(st.sampled_from([5, 8, 9, 12, 16, 17, 20, 33])),
            "K": 1, "depth": depth, "struct": struct, "layer": layer, "seed": draw(gen.SEED), "gs": 1.0}


def run_many(case, t):
    cfg, R = dict(case), case["R"]
    t.label(cfg["struct"] + "/" + cfg["layer"], f"R={R}")
    t.nontrivial(True)

    def equal(s):
        """Pairs of repetitions with the same regions (at least 2e6 equally likely ones for the first two)."""
        gen.seed_all(s)
        lab = grouping(cfg, s)
        seen, out = {}, []
        for r in range(R):
            key = tuple(lab[r].tolist())
            if key in seen:
                out.append((seen[key], r))
            seen[key] = r
        return out

    a = equal(cfg["seed"])
    t.checks += 1
    if a:
        b = equal((cfg["seed"] + 1) % 2**31)
        t.ok(not b, f"repetitions {a[:3]} share all their regions ({R} repetitions of {cfg['F']} features), and {b[:3]} of another construction")


SUBS = [
    Sub("repetitions", st_many, run_many, quick=60, desc="regions of up to 33 repetitions differ from each other"),
    Sub("size", st_size, run_size, quick=1200, desc="parameter count, reproducible and non-degenerate initial values"),
    Sub("extreme", st_extreme, run_extreme, quick=240, desc="fresh Einet and ConvPc models when torch.rand returns its rarest values (exactly 0)"),
    Sub("regions", st_regions, run_regions, quick=110, desc="balanced, uniformly random and independent regions over many constructions"),
]
