"""P20: a heterogeneous leaf layer treats each feature by its own distribution."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, leaf, stats
from ..core import Sub
from .p18 import tolerance
from .p19 import picker

RULE = ("A case is a MultiDistributionLayer over a generated partition of the features (scopes listed in any order, as list or tuple) with generated shapes and "
        "parameters. Non-trivial: at least two parts, or scopes not in ascending order.")
ASSUMPTIONS = ["parts are univariate leaf families (multivariate parts change the number of output features and are not supported by the layer)",
               "the j-th scope of a part uses the part's j-th parameter set (`dists` of the layer)",
               "statistical tests: a violation needs p < 1e-6 twice, on independent samples"]
NAN = float("nan")


@st.composite
def st_multi(draw, max_F=8, max_n=20, kinds=leaf.SIMPLE):
    F = draw(st.integers(1, max_F))
    nparts = draw(st.integers(1, min(4, F)))
    perm = draw(st.permutations(range(F)))
    cuts = sorted(draw(st.lists(st.integers(1, F - 1), min_size=nparts - 1, max_size=nparts - 1, unique=True))) if nparts > 1 else []
    parts, lo = [], 0
    for hi in cuts + [F]:
        parts.append({"scopes": list(perm[lo:hi]), "leaf": draw(leaf.leaf_spec(kinds, max_n=max_n, max_k=4))})
        lo = hi
    return {"F": F, "parts": parts, "C": draw(st.integers(1, 3)), "L": draw(st.integers(1, 3)), "R": draw(st.integers(1, 3)), "seed": draw(gen.SEED),
            "gain": draw(st.sampled_from([1.0, 1.0, 2.0])), "as": draw(st.sampled_from(["list", "list", "tuple"])), "q": draw(gen.SEED)}


def make(case):
    from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer

    conv = tuple if case["as"] == "tuple" else list
    gen.seed_all(case["seed"])
    m = MultiDistributionLayer([(conv(p["scopes"]), *gen.leaf_class_kwargs(p["leaf"])) for p in case["parts"]], num_features=case["F"], num_channels=case["C"],
                               num_leaves=case["L"], num_repetitions=case["R"])
    g = torch.Generator().manual_seed(case["seed"] ^ 0xA11)
    with torch.no_grad():
        for p in m.parameters():
            if p.requires_grad:
                p.add_(case["gain"] * torch.randn(p.shape, generator=g))
    return m


def label(case, t):
    order = [f for p in case["parts"] for f in p["scopes"]]
    inv = [order.index(f) for f in range(len(order))]
    t.label("parts=%d" % len(case["parts"]), "sorted" if order == sorted(order) else "self-inverse" if order == inv else "permuted", case["as"],
            "C>1" if case["C"] > 1 else "C=1", "R>1" if case["R"] > 1 else "R=1", *["leaf=" + p["leaf"]["type"] for p in case["parts"]])
    t.nontrivial(len(case["parts"]) > 1 or order != sorted(order))


def data(case, n, seed):
    cfg = {"F": case["F"], "C": case["C"], "leaf": {"type": "multi", "parts": case["parts"]}}
    return gen.random_states(cfg, n, seed)


def in_support(case, x):
    return gen.in_support({"F": case["F"], "C": case["C"], "leaf": {"type": "multi", "parts": case["parts"]}}, x)


# ------------------------------------------------------------ density
@st.composite
def st_dens(draw):
    case = draw(st_multi())
    case.update(n=draw(gen.rows(1, 5)), how=draw(st.sampled_from(["none", "nan", "list", "tensor", "both"])), scopes=draw(st.lists(st.integers(0, case["F"] - 1), min_size=1, unique=True)))
    return case


def run_dens(case, t):
    m = make(case)
    label(case, t)
    t.label(case["how"])
    x = data(case, case["n"], case["q"])
    miss = torch.zeros(x.shape, dtype=torch.bool)
    scopes, inp = None, x.clone()
    if case["how"] in ("nan", "both"):
        miss = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["q"])) < 0.4
        inp[miss] = NAN
    if case["how"] in ("list", "tensor", "both"):
        scopes = case["scopes"] if case["how"] != "tensor" else torch.tensor(case["scopes"])
        miss[:, :, case["scopes"]] = True
    before = inp.clone()
    with torch.no_grad():
        got = m(inp, scopes).double()
    t.ok(bool(((inp == before) | (inp.isnan() & before.isnan())).all()), "the input was modified")
    t.ok(tuple(got.shape) == (case["n"], case["C"], case["F"], case["L"], case["R"]), f"shape {tuple(got.shape)}")
    t.ok(not bool(got.isnan().any()), "NaN log-density")
    t.ok(bool((got[miss] == 0).all()), "a missing entry does not contribute zero")
    for p, d in zip(case["parts"], m.dists):
        s = p["scopes"]
        P = leaf.ref_params(p["leaf"], d)
        want = leaf.log_prob(p["leaf"], P, x[:, :, s])
        g = got[:, :, s]
        judged = ~miss[:, :, s][..., None, None].expand_as(g)
        tol = tolerance(p["leaf"], want)
        if "logit" in P:
            judged = judged & (P["logit"].abs() <= 10)
            tol = tol + 2e-7 * p["leaf"].get("n", 1) * P["logit"].abs().clamp(max=10).exp()
        if "sigma" in P:
            judged = judged & (P["sigma"] > 0.02)
            tol = tol + 1e-5 * (1 + (x[:, :, s].double()[..., None, None] - P["mu"]).abs() / P["sigma"]) ** 2 / P["sigma"]
        bad = judged & ~((g - want).abs() <= tol)
        if bool(bad.any()):
            i = tuple(bad.nonzero()[0].tolist())
            t.fail(f"feature {s[i[2]]} ({p['leaf']['type']}, scopes {[q['scopes'] for q in case['parts']]}): log-density {float(g[i])}, its own distribution gives {float(want[i])}")
        t.checks += 1


# ------------------------------------------------------------ samples and modes
@st.composite
def st_samp(draw):
    case = draw(st_multi(max_F=6))
    case.update(diff=draw(st.booleans()), how=draw(st.sampled_from(["mpe", "leaves", "sample", "sample"])), n=draw(st.integers(1, 4)), noout=draw(st.integers(0, 4)) == 0)
    return case


def sample(case, m, n, seed, diff=False, noout=False, **kw):
    from simple_einet.sampling_utils import SamplingContext

    g = torch.Generator().manual_seed(seed)
    out = torch.randint(case["L"], (n, case["F"]), generator=g)
    rep = torch.randint(case["R"], (n,), generator=g)
    io, ir = out, rep
    if diff:
        io = torch.nn.functional.one_hot(out, case["L"]).float()
        ir = torch.nn.functional.one_hot(rep, case["R"]).float()
    ctx = SamplingContext(num_samples=n, indices_out=None if noout else io.clone(), indices_repetition=ir.clone(), num_repetitions=case["R"], is_differentiable=diff, **kw)
    torch.manual_seed(seed)
    with torch.no_grad():
        x = m.sample(ctx).float()
    if noout:
        x = torch.stack([x[i].gather(-1, out[i].expand(case["C"], case["F"]).unsqueeze(-1))[..., 0] for i in range(n)])
    return x, out, rep


def run_samp(case, t):
    m = make(case)
    label(case, t)
    t.label(case["how"], "differentiable" if case["diff"] else "plain")
    C, F = case["C"], case["F"]
    if case["how"] != "sample":
        x, out, rep = sample(case, m, case["n"], case["q"], case["diff"], case["noout"], is_mpe=case["how"] == "mpe", mpe_at_leaves=case["how"] == "leaves")
        t.ok(tuple(x.shape) == (case["n"], C, F), f"modes of shape {tuple(x.shape)}")
        t.ok(bool(in_support(case, x).all()), "a mode outside the support of its feature")
        for p, d in zip(case["parts"], m.dists):
            s = p["scopes"]
            pick = picker(out[:, s], rep)
            P = leaf.ref_params(p["leaf"], d)
            g = x[:, :, s].double()
            vals = gen.leaf_values(p["leaf"])
            if vals is None:
                mu = pick(P["mu"])
                t.ok(bool(((g - mu).abs() <= 1e-5 * (1 + mu.abs())).all()), f"mode of features {s} is {g.tolist()}, means of their own selected components {mu.tolist()}")
            else:
                tab = pick(torch.stack([leaf.log_pmf(p["leaf"], P, k) for k in vals], -1))
                best = tab.max(-1)[0]
                got = tab.gather(-1, g.long().unsqueeze(-1))[..., 0]
                t.ok(bool((got >= best - 2e-4 - 1e-6 * best.abs() * p["leaf"].get("n", 1)).all()), f"mode of features {s} is {g.tolist()}: not the most probable value of their own components")
        return
    diff = case["diff"] and all(p["leaf"]["type"] != "binomial" for p in case["parts"])
    cache = {}

    def draw(n, s):
        if (n, s) not in cache:
            x, out, rep = sample(case, m, n, case["q"] + s, diff, case["noout"])
            t.ok(tuple(x.shape) == (n, C, F), f"samples of shape {tuple(x.shape)}")
            t.ok(bool(in_support(case, x).all()), "a sample outside the support of its feature")
            u = np.zeros((n, C, F))
            for p, d in zip(case["parts"], m.dists):
                sc = p["scopes"]
                u[:, :, sc] = leaf.pit(p["leaf"], leaf.ref_params(p["leaf"], d), x[:, :, sc], picker(out[:, sc], rep), 1.0, np.random.default_rng(s))
            cache[(n, s)] = u
        return cache[(n, s)]

    bins = lambda u: np.bincount((u * 10).astype(int).clip(0, 9), minlength=10)
    for c in range(C):
        for f in range(F):
            ok, d = stats.two_stage(lambda n, s: bins(draw(n, s)[:, c, f]), np.full(10, 0.1), 1000, 6000)
            t.ok(ok, f"samples of channel {c} feature {f} do not follow the distribution assigned to it, scopes {[p['scopes'] for p in case['parts']]} (p={d})")


# ------------------------------------------------------------ invalid assignments
@st.composite
def st_bad(draw):
    case = draw(st_multi(max_F=7))
    case.update(how=draw(st.sampled_from(["duplicate", "missing", "extra", "out-of-range", "negative", "twice", "fine"])), at=draw(gen.SEED))
    return case


def run_bad(case, t):
    parts = [dict(p, scopes=list(p["scopes"])) for p in case["parts"]]
    F = case["F"]
    g = torch.Generator().manual_seed(case["at"])
    i = int(torch.randint(len(parts), (1,), generator=g))
    s = parts[i]["scopes"]
    j = int(torch.randint(len(s), (1,), generator=g))
    how = case["how"]
    if how == "duplicate":  # right count, one feature twice, another never
        if F < 2:
            t.reject()
        s[j] = (s[j] + 1) % F
    elif how == "missing":
        if len(s) < 2:
            t.reject()
        del s[j]
    elif how == "extra":
        s.append(s[j])
    elif how == "out-of-range":
        s[j] = F + int(torch.randint(3, (1,), generator=g))
    elif how == "negative":
        if F < 2:
            t.reject()
        k = int(torch.randint(len(parts), (1,), generator=g))
        s[j] = -1 - int(torch.randint(F, (1,), generator=g))
    elif how == "twice":
        parts.append(dict(parts[i], scopes=list(s)))
    t.label(how)
    t.nontrivial()
    try:
        make(dict(case, parts=parts))
        got = True
    except Exception:  # noqa: BLE001
        got = False
    t.ok(got == (how == "fine"), f"scopes {[p['scopes'] for p in parts]} for {F} features were {'accepted' if got else 'rejected'}")


# ------------------------------------------------------------ inside a model: one family split into parts equals the undivided leaf layer
@st.composite
def st_model(draw):
    fam = draw(leaf.leaf_spec(leaf.SIMPLE, max_n=6, max_k=4))
    cfg = draw(gen.einet_cfg(wide="SIRK", leaf=fam, max_states=None, max_F=9, max_C=3))
    F = cfg["F"]
    perm = draw(st.permutations(range(F)))
    cuts = sorted(draw(st.lists(st.integers(1, F - 1), max_size=2, unique=True)))
    parts = [{"scopes": list(perm[a:b]), "leaf": fam} for a, b in zip([0] + cuts, cuts + [F])]
    return {"cfg": cfg, "parts": parts, "n": draw(st.integers(1, 4)), "q": draw(gen.SEED), "scopes": draw(st.lists(st.integers(0, F - 1), min_size=1, unique=True))}


def run_model(case, t):
    cfg = case["cfg"]
    multi = gen.build(dict(cfg, leaf={"type": "multi", "parts": case["parts"]}))
    plain = gen.build(cfg)
    inner = lambda m: getattr(m.leaf, "base_leaf", m.leaf)
    sd = {k: v for k, v in multi.state_dict().items() if ".dists." not in k}
    plain.load_state_dict(sd, strict=False)
    with torch.no_grad():
        for p, d in zip(case["parts"], inner(multi).dists):
            for name, v in d.named_parameters():
                if v.requires_grad:
                    dict(inner(plain).named_parameters())[name][:, :, p["scopes"]] = v
    t.label(*gen.labels(cfg))
    t.nontrivial()
    x = gen.random_states(cfg, case["n"], case["q"])
    ev = x.masked_fill(torch.rand(x.shape, generator=torch.Generator().manual_seed(case["q"])) < 0.5, NAN)
    with torch.no_grad():
        for name, inp, s in (("likelihood", x, None), ("likelihood with missing entries", ev, None), ("likelihood with marginalized scopes", x, case["scopes"])):
            a, b = multi(inp, s), plain(inp, s)
            t.ok(torch.allclose(a, b, rtol=2e-5, atol=2e-4), f"{name}: {a.tolist()} with the leaf layer split into {[p['scopes'] for p in case['parts']]}, undivided {b.tolist()}")
    for kw in (dict(), dict(evidence=ev), dict(evidence=x, marginalized_scopes=case["scopes"])):
        for diff in (False, True):
            k = dict(kw) if kw else dict(num_samples=1)
            a = multi.sample(is_mpe=True, is_differentiable=diff, **k).detach()
            b = plain.sample(is_mpe=True, is_differentiable=diff, **k).detach()
            if not torch.allclose(a, b, atol=1e-4):
                with torch.no_grad():
                    la, lb = (torch.logsumexp(plain(v), 1) for v in (a, b))
                t.ok(bool(((la - lb).abs() < 1e-3).all()), f"MPE {kw.keys()} {a.tolist()} with the leaf layer split, undivided {b.tolist()}")
            t.checks += 1


SUBS = [
    Sub("density", st_dens, run_dens, quick=1600, desc="log-density of each feature against its own distribution; missing entries and marginalised scopes"),
    Sub("samples", st_samp, run_samp, quick=900, desc="samples (integral transforms) and modes of each feature against its own distribution"),
    Sub("model", st_model, run_model, quick=500, desc="a model whose leaf layer is split into parts of one family against the undivided leaf layer"),
    Sub("assignments", st_bad, run_bad, quick=600, desc="assignments that do not cover every feature exactly once are rejected"),
]
