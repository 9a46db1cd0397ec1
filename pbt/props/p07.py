"""P07: conditional queries keep the evidence and fill exactly what is missing."""
import torch
from hypothesis import strategies as st

from .. import gen, ties
from ..core import Sub

RULE = ("A case is an Einet configuration, evidence values with a missing pattern, the layout and dtype of the evidence and a "
        "query (sample, MPE, MPE at leaves, differentiable). Non-trivial: something observed and something missing.")
ASSUMPTIONS = ["differentiable sampling of binomial leaves is documented to be a clipped Gaussian approximation: only its range is checked"]
NAN = float("nan")
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")


@st.composite
def st_case(draw):
    cfg = draw(gen.einet_cfg(wide="SIRKCFV", huge=True, kinds=ALL, max_states=None, max_F=16, max_C=3, max_I=4, max_S=4, max_R=3, max_K=3, leaf_gains=(0.0, 1.0, 4.0)))
    F, C = cfg["F"], cfg["C"]
    hw = [(h, F // h) for h in range(1, F + 1) if F % h == 0]
    layouts = ["3d", "4d", "4d-strided", "3d-strided"] + (["2d"] if C == 1 else [])
    return {
        "cfg": cfg, "n": draw(gen.rows(1, 5)), "xseed": draw(gen.SEED), "layout": draw(st.sampled_from(layouts)),
        "hw": list(draw(st.sampled_from(hw))), "dtype": draw(st.sampled_from(["float32", "float64"])),
        "how": draw(st.sampled_from(["nan", "nan", "scopes", "scopes-nan", "both"])), "p": draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0])),
        "scopes": draw(st.lists(st.integers(0, F - 1), min_size=1, unique=True)),
        "query": draw(st.sampled_from(["sample", "mpe", "mpe-method", "mpe-method-diff", "leaves", "diff", "diff-mpe"])),
    }


def run(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg)
    n, C, F = case["n"], cfg["C"], cfg["F"]
    x = gen.random_states(cfg, n, case["xseed"])
    if case["dtype"] == "float64":  # observed values must come back in full precision
        x = x.double()
        for f, dom in enumerate(gen.domain(cfg)):
            if dom is None:
                x[:, :, f] += 1e-3 * torch.rand(n, C, dtype=torch.float64, generator=torch.Generator().manual_seed(case["xseed"] + f))
    # zeros of either sign
    x[(x == 0) & (torch.rand(x.shape, generator=torch.Generator().manual_seed(case["xseed"] + 1)) < 0.5)] = -0.0
    for f, dom in enumerate(gen.domain(cfg)):
        if dom is None and (case["xseed"] + f) % 3 == 0:
            x[:, :, f] = -0.0
    kw = {}
    if case["how"] == "nan":
        mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["xseed"])) < case["p"]
        ev = x.masked_fill(mask, NAN)
    else:
        mask = torch.zeros_like(x, dtype=torch.bool)
        mask[:, :, case["scopes"]] = True
        ev = x.masked_fill(mask, NAN) if case["how"] == "scopes-nan" else x.clone()
        if case["how"] == "both":
            hole = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["xseed"])) < case["p"]
            mask, ev = mask | hole, x.masked_fill(hole, NAN)
        kw["marginalized_scopes"] = list(case["scopes"])
    ev = ev.to(getattr(torch, case["dtype"]))
    h, w = case["hw"]
    lay = case["layout"]
    if lay == "2d":
        ev = ev.squeeze(1)
    elif lay == "4d":
        ev = ev.view(n, C, h, w)
    elif lay == "4d-strided":  # channels-last images
        ev = ev.view(n, C, h, w).permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
    elif lay == "3d-strided":
        ev = ev.permute(2, 1, 0).contiguous().permute(2, 1, 0)
    before, ver = ev.clone(), ev._version
    q = case["query"]
    if q == "mpe-method":
        out = m.mpe(evidence=ev, **kw)
    elif q == "mpe-method-diff":
        out = m.mpe(evidence=ev, is_differentiable=True, **kw)
    else:
        out = m.sample(evidence=ev, is_mpe=q in ("mpe", "diff-mpe"), mpe_at_leaves=q == "leaves",
                       is_differentiable=q.startswith("diff"), seed=5, **kw)
    t.label(*gen.labels(cfg))
    t.label(q, lay, case["dtype"], case["how"], "none-missing" if not mask.any() else "all-missing" if mask.all() else "partial")
    t.nontrivial(bool(mask.any()) and not bool(mask.all()))
    t.ok(out.shape == ev.shape, f"result shape {tuple(out.shape)} for evidence {tuple(ev.shape)}")
    same = (ev == before) | (ev.isnan() & before.isnan())
    t.ok(bool(same.all()) and ev._version == ver, "the caller's evidence was modified")
    if kw and "mpe" in q:  # naming features as missing is the same query as giving NaN for them, through either method
        hidden = ev.clone().masked_fill(mask.view(ev.shape), NAN)
        for name, other in (("mpe()", m.mpe(evidence=hidden.clone(), is_differentiable="diff" in q)),
                            ("sample(is_mpe=True)", m.sample(evidence=hidden.clone(), is_mpe=True, is_differentiable="diff" in q))):
            differ = other.detach() != out.detach()
            if differ.any() and not tied(m, cfg, hidden.reshape(n, C, F), differ.reshape(n, C, F)):
                t.fail(f"{name} with NaN for the features {case['scopes']} gives {other[differ][:4].tolist()}, naming them in "
                       f"marginalized_scopes gives {out[differ][:4].tolist()}")
            t.checks += 1
    o = out.detach().reshape(n, C, F)
    t.ok(o.untyped_storage().data_ptr() != ev.untyped_storage().data_ptr(), "the result shares memory with the caller's evidence")
    obs = ~mask
    a, b = o[obs].double(), x[obs].double()
    t.ok(torch.equal(a.view(torch.int64), b.view(torch.int64)),
         lambda: f"observed entries {b[a.view(torch.int64) != b.view(torch.int64)][:4].tolist()} came back as {a[a.view(torch.int64) != b.view(torch.int64)][:4].tolist()}")
    sup = gen.in_support(cfg, o.float())
    if q == "diff":
        for f in range(F):
            if is_binomial(cfg, f):
                top = gen.domain(cfg)[f][-1]
                sup[:, :, f] = torch.isfinite(o[:, :, f]) & (o[:, :, f] >= 0) & (o[:, :, f] <= top)
    bad = mask & ~sup
    t.ok(not bool(bad.any()), f"missing entries filled with {o[bad][:5].tolist()} (not in the support)")


def tied(m, cfg, hidden, differ):
    """Is every differing row decided by rounding between equally probable branches?"""
    for i in differ.flatten(1).any(1).nonzero().flatten().tolist():
        row = hidden[i : i + 1]
        with torch.no_grad():
            heads = m(row.float())
        if not ties.unsettled(m, lambda v: v.mpe(evidence=row.clone()), heads):
            return False
    return True


def is_binomial(cfg, f):
    leaf = cfg["leaf"]
    if leaf["type"] == "multi":
        leaf = [p["leaf"] for p in leaf["parts"] if f in p["scopes"]][0]
    return leaf["type"] == "binomial"


@st.composite
def st_mvn(draw):
    c = draw(st.integers(2, 3))
    F = c * draw(st.integers(1, 4))
    cfg = draw(gen.einet_cfg(wide="SIRK", leaf={"type": "mvn", "card": c}, min_F=F, max_F=F, max_C=2, max_states=None, structs=gen.STRUCTS[:3]))
    return {"cfg": cfg, "n": draw(st.integers(1, 4)), "q": draw(st.sampled_from(["sample", "mpe", "diff", "diff-mpe"]))}


def run_mvn(case, t):
    """Multivariate leaves (no missing-value support): complete evidence comes back, unconditional queries have the documented shape."""
    cfg = case["cfg"]
    m = gen.build(cfg)
    x = gen.random_states(cfg, case["n"], cfg["seed"])
    q = case["q"]
    kw = dict(is_mpe="mpe" in q, is_differentiable=q.startswith("diff"))
    t.nontrivial(gen.nontrivial(cfg))
    t.label(*gen.labels(cfg))
    out = m.sample(evidence=x, **kw)
    t.ok(torch.equal(out.detach(), x), "complete evidence was changed")
    c = cfg["leaf"]["card"]
    gone = [f for f in range(cfg["F"]) if cfg["seed"] >> (f // c) & 1]
    if gone:  # whole groups may be named as missing
        y = x.clone()
        out = m.sample(evidence=y, marginalized_scopes=gone, **kw).detach()
        keep = [f for f in range(cfg["F"]) if f not in gone]
        t.ok(out.shape == x.shape and torch.equal(out[:, :, keep], x[:, :, keep]), f"evidence changed with the groups {gone} missing")
        t.ok(bool(torch.isfinite(out).all()) and torch.equal(x, y), f"groups {gone} not filled or the evidence modified")
        t.ok(not bool((out[:, :, gone] == x[:, :, gone]).all()), f"groups {gone} came back as they were given")
    out = m.sample(num_samples=case["n"], **kw)
    t.ok(out.shape == x.shape and bool(torch.isfinite(out).all()), f"shape {tuple(out.shape)}")


SUBS = [
    Sub("evidence", st_case, run, quick=2400, desc="all layouts, dtypes, strides, missing patterns and query kinds"),
    Sub("mvn", st_mvn, run_mvn, quick=100, desc="multivariate normal leaves with complete evidence"),
]
