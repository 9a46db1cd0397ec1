"""P02: missing features are marginalised exactly."""
import math

import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Sub
from .p01 import quad_axis

RULE = ("A case is an Einet configuration with seeded parameters, inputs and a missing pattern. Non-trivial: at least one "
        "cell is missing and one observed in some row, and the model has a sum node with two children.")
ASSUMPTIONS = ["multivariate-normal leaves are documented not to support missing parts of a group; whole groups are marginalised by scopes only",
               "inputs mixing NaN entries with marginalized_scopes in one call are not generated"]
NAN = float("nan")


@st.composite
def st_enum(draw):
    cfg = draw(gen.einet_cfg(wide="SIRK", max_states=1024))
    n = draw(st.integers(1, 4))
    cells = cfg["C"] * cfg["F"]
    masks = draw(st.lists(st.lists(st.booleans(), min_size=cells, max_size=cells), min_size=n, max_size=n))
    scopes = draw(st.lists(st.integers(0, cfg["F"] - 1), unique=True, min_size=1))
    return {"cfg": cfg, "xseed": draw(gen.SEED), "masks": masks, "scopes": scopes}


def check_scopes(cfg, m, x, scopes, t, tol):
    """Whole features by NaN vs by marginalized_scopes (list, tensor), and independence of the stored values."""
    xn = x.clone()
    xn[:, :, scopes] = NAN
    ref = m(xn)
    got = m(x, marginalized_scopes=list(scopes))
    t.ok(bool(torch.allclose(got, ref, atol=tol, rtol=1e-5)), f"marginalized_scopes={scopes}: {got.tolist()} but NaN entries give {ref.tolist()}")
    got = m(x, marginalized_scopes=torch.tensor(scopes))
    t.ok(bool(torch.allclose(got, ref, atol=tol, rtol=1e-5)), f"marginalized_scopes as tensor {scopes}: {got.tolist()} != {ref.tolist()}")
    got = m(xn, marginalized_scopes=list(scopes))
    t.ok(bool(torch.allclose(got, ref, atol=tol, rtol=1e-5)), f"marginalized_scopes={scopes} with NaN stored there: {got.tolist()} != {ref.tolist()}")
    # some features listed, other entries NaN, in one call
    hole = torch.rand(x.shape, generator=torch.Generator().manual_seed(len(scopes) + x.shape[0])) < 0.4
    xh = x.masked_fill(hole, NAN)
    xu = xh.clone()
    xu[:, :, scopes] = NAN
    keep = xh.clone()
    got, want = m(xh, marginalized_scopes=list(scopes)), m(xu)
    t.ok(bool(torch.allclose(got, want, atol=tol, rtol=1e-5)), f"NaN entries and marginalized_scopes={scopes} together: {got.tolist()}, all of them as NaN: {want.tolist()}")
    t.ok(torch.equal(xh.nan_to_num(nan=-9.0), keep.nan_to_num(nan=-9.0)), "the input was modified")
    y = gen.random_states(cfg, x.shape[0], 17)
    x2 = x.clone()
    x2[:, :, scopes] = y[:, :, scopes]
    got = m(x2, marginalized_scopes=list(scopes))
    t.ok(bool(torch.allclose(got, ref, atol=tol, rtol=1e-5)), f"the values stored at marginalised scopes {scopes} change the result")
    return ref


def run_enum(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    C, F = cfg["C"], cfg["F"]
    states = gen.all_states(cfg)
    full = gen.forward_chunks(m, states).double()
    n = len(case["masks"])
    x = gen.random_states(cfg, n, case["xseed"])
    mask = torch.tensor(case["masks"]).view(n, C, F)
    xn = x.masked_fill(mask, NAN)
    keep = xn.clone()
    got = m(xn)
    t.ok(bool(torch.equal(torch.nan_to_num(xn, nan=-9.0), torch.nan_to_num(keep, nan=-9.0))), "the input was modified")
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg) and any(any(r) and not all(r) for r in case["masks"]))
    for i in range(n):
        sel = ((states == x[i]) | mask[i]).flatten(1).all(1)
        want = torch.logsumexp(full[sel], 0)
        t.ok(bool(((got[i].double() - want).abs() < 1e-3 + 1e-4 * want.abs()).all()),
             f"row {i} with mask {case['masks'][i]}: {got[i].tolist()} but the sum over completions gives {want.tolist()}")
    ref = check_scopes(cfg, m, x, case["scopes"], t, 1e-4)
    keepm = torch.zeros(F, dtype=torch.bool)
    keepm[case["scopes"]] = True
    for i in range(n):
        sel = ((states == x[i]) | keepm).flatten(1).all(1)
        want = torch.logsumexp(full[sel], 0)
        t.ok(bool(((ref[i].double() - want).abs() < 1e-3 + 1e-4 * want.abs()).all()),
             f"features {case['scopes']} missing: {ref[i].tolist()} but the sum over completions gives {want.tolist()}")


@st.composite
def st_one(draw):
    cfg = draw(gen.einet_cfg(wide="SIRKCFV", huge=True, kinds=("bernoulli", "categorical", "binomial", "normal", "ratnormal"), discrete=None,
                             max_states=None, max_F=24, max_C=3, max_S=5, max_I=5, max_R=4, leaf_gains=(0.0, 0.5, 1.0)))
    return {"cfg": cfg, "xseed": draw(gen.SEED), "p": draw(st.sampled_from([0.0, 0.2, 0.5, 0.8, 0.97])),
            "f": draw(st.integers(0, cfg["F"] - 1)), "c": draw(st.integers(0, cfg["C"] - 1)), "n": draw(st.integers(1, 3)),
            "scopes": draw(st.lists(st.integers(0, cfg["F"] - 1), unique=True, min_size=1))}


def run_one(case, t):
    """Any size: marginalising one more cell equals summing/integrating it out."""
    cfg = case["cfg"]
    m = gen.build(cfg)
    n, f, c = case["n"], case["f"], case["c"]
    x = gen.random_states(cfg, n, case["xseed"])
    g = torch.Generator().manual_seed(case["xseed"])
    mask = torch.rand(x.shape, generator=g) < case["p"]
    mask[:, c, f] = True
    xn = x.masked_fill(mask, NAN)
    got = m(xn).double()
    dom = gen.domain(cfg)[f]
    if dom is not None:
        vals, lw = torch.tensor(dom, dtype=torch.float32), torch.zeros(len(dom), dtype=torch.float64)
    else:
        vals, lw = quad_axis(0.015, 5.3)
    xs = xn.repeat_interleave(len(vals), 0)
    xs[:, c, f] = vals.repeat(n)
    ll = gen.forward_chunks(m, xs).double().view(n, len(vals), -1)
    want = torch.logsumexp(ll + lw[None, :, None], 1)
    t.label(*gen.labels(cfg))
    t.label("all-missing" if bool(mask.all()) else "some-observed")
    t.nontrivial(gen.nontrivial(cfg) and not bool(mask.all()))
    tol = 2e-3 + 2e-5 * want.abs()
    t.ok(bool(((got - want).abs() < tol).all()),
         f"cell (c={c}, f={f}) missing: {got.tolist()} but summing it out gives {want.tolist()}")
    check_scopes(cfg, m, x, case["scopes"], t, 1e-3)


@st.composite
def st_many(draw):
    F = draw(st.sampled_from([64, 129, 257, 300, 520, 784, 1025]))
    cfg = draw(gen.einet_cfg(kinds=("bernoulli", "categorical", "binomial", "normal"), with_multi=False, discrete=None, max_states=None, min_F=F, max_F=F,
                             max_C=2, max_S=2, max_I=2, max_R=2, max_K=2, leaf_gains=(1.0,)))
    return {"cfg": cfg, "xseed": draw(gen.SEED), "n": draw(st.integers(1, 3)), "p": draw(st.sampled_from([0.003, 0.2, 0.9]))}


def run_many(case, t):
    """As many features as images have: naming features anywhere among them is giving NaN for them."""
    cfg = case["cfg"]
    m = gen.build(cfg)
    x = gen.random_states(cfg, case["n"], case["xseed"])
    g = torch.Generator().manual_seed(case["xseed"])
    scopes = (torch.rand(cfg["F"], generator=g) < case["p"]).nonzero().flatten()
    scopes = scopes[torch.randperm(len(scopes), generator=g)].tolist() or [cfg["F"] - 1]
    t.label(*gen.labels(cfg))
    t.nontrivial()
    with torch.no_grad():
        check_scopes(cfg, m, x, scopes, t, 2e-2)
        one = [int(torch.randint(cfg["F"], (1,), generator=g))]
        a, b = x.clone(), x.clone()
        a[:, :, one[0]] = NAN
        want, full = m(a), m(b)
        t.ok(bool(torch.allclose(m(x, marginalized_scopes=one), want, atol=1e-3 + 1e-5 * float(full.abs().max()))), f"feature {one} of {cfg['F']} marginalised")


@st.composite
def st_mvn(draw):
    F = 2 * draw(st.integers(1, 5))
    cfg = draw(gen.einet_cfg(leaf={"type": "mvn", "card": 2}, min_F=F, max_F=F, max_C=1, max_states=None, structs=gen.STRUCTS[:3],
                             leaf_gains=(0.5,)))
    groups = draw(st.lists(st.integers(0, F // 2 - 1), unique=True, min_size=1))
    return {"cfg": cfg, "xseed": draw(gen.SEED), "n": draw(st.integers(1, 3)), "groups": groups}


def run_mvn(case, t):
    """Whole groups of a multivariate leaf: one more group missing equals integrating it out."""
    cfg = case["cfg"]
    m = gen.build(cfg)
    with torch.no_grad():  # scales and means the fixed grid resolves
        for k, p in m.named_parameters():
            if p.requires_grad and k.startswith("leaf"):
                p.clamp_(-0.45, 0.45) if "diag" in k else p.clamp_(-1.5, 1.5)
    n, F = case["n"], cfg["F"]
    x = gen.random_states(cfg, n, case["xseed"])
    sc = lambda gs: [f for q in gs for f in (2 * q, 2 * q + 1)]
    t.label(*gen.labels(cfg), f"groups={len(case['groups'])}/{F // 2}")
    t.nontrivial(gen.nontrivial(cfg) and len(case["groups"]) < F // 2)
    got = m(x, marginalized_scopes=torch.tensor(sc(case["groups"]))).double()
    alt = m(x, marginalized_scopes=sc(case["groups"])).double()
    t.ok(bool(torch.equal(got, alt)), f"scopes as list {alt.tolist()} != as tensor {got.tolist()}")
    y = x.clone()
    y[:, :, sc(case["groups"])] += 1.0
    alt = m(y, marginalized_scopes=sc(case["groups"])).double()
    t.ok(bool(torch.allclose(got, alt, atol=1e-5)), "values stored at marginalised features change the result")
    h = 0.2
    a = torch.arange(-7.0, 7.0 + h / 2, h)
    g = torch.cartesian_prod(a, a)
    xs = x.repeat_interleave(len(g), 0)
    q, rest = case["groups"][0], case["groups"][1:]
    xs[:, 0, 2 * q:2 * q + 2] = g.repeat(n, 1)
    out = []
    for part in xs.split(20000):
        with torch.no_grad():
            out.append(m(part, marginalized_scopes=sc(rest)) if rest else m(part))
    ll = torch.cat(out).double().view(n, len(g), -1)
    want = torch.logsumexp(ll, 1) + 2 * math.log(h)
    t.ok(bool(((got - want).abs() < 5e-3 + 2e-5 * want.abs()).all()),
         f"group {q} (and {rest}) missing: {got.tolist()} but integrating it out gives {want.tolist()}")


SUBS = [
    Sub("enumerate", st_enum, run_enum, quick=600,
        desc="discrete models; rows with their own missing cells against the log-sum over all completions, and whole features by NaN / list / tensor of scopes"),
    Sub("one-more", st_one, run_one, quick=500,
        desc="models of any size and leaf type; missing one more cell against the sum/quadrature over its values"),
    Sub("many-features", st_many, run_many, quick=60, desc="64 to 1025 features: features named anywhere among them against NaN entries"),
    Sub("mvn-groups", st_mvn, run_mvn, quick=60, desc="multivariate normal leaves: whole groups by scopes (list, tensor) against quadrature"),
]
