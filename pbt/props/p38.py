"""P38: double precision keeps the model and the evidence."""
import copy

import torch
from hypothesis import strategies as st

from .. import conv, gen, leaf, ties
from ..core import Sub
from . import p26

RULE = ("A case is a model (Einet, convolutional circuit or mixture) converted to double precision, queries and evidence with digits that single "
        "precision cannot hold. Non-trivial: the model has sum nodes.")
ASSUMPTIONS = ["single precision: relative difference of log-likelihoods up to 1e-3 of their magnitude (Bernoulli and binomial leaves round 1-p in single precision)",
               "the most probable completions of the two precisions may differ where their likelihoods tie to single precision",
               "ordinary samples are returned in single precision, observed values excepted",
               "differentiable sampling of binomial leaves is a clipped Gaussian approximation: only its range is checked"]
NAN = float("nan")
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")


def doubled(m, t):
    """Double-precision copy; the round trip restores every parameter and buffer."""
    md = copy.deepcopy(m).double()
    back = copy.deepcopy(md).float()
    a, b = m.state_dict(), back.state_dict()
    t.ok(a.keys() == b.keys() and all(torch.equal(a[k], b[k]) for k in a), "parameters change by converting to double precision and back")
    for k, v in md.state_dict().items():
        t.ok(v.dtype == torch.float64 or not a[k].is_floating_point(), f"{k} stays in {v.dtype}")
    return md


def close(t, lo, hi, what, tol=1e-3):
    lo, hi = lo.detach().double(), hi.detach().double()
    t.ok(torch.equal(torch.isfinite(lo), torch.isfinite(hi)), f"{what}: finite in one precision only")
    fin = torch.isfinite(lo) & torch.isfinite(hi)
    d = ((lo - hi).abs() / (1 + hi.abs()))[fin]
    t.ok(not len(d) or float(d.max()) <= tol, lambda: f"{what}: single and double precision differ by {float(d.max()):.2e} (relative)")


class Wrap:
    """Common interface over Einet / ConvPc: x is [N, C, F]."""

    def __init__(self, cfg, m, isconv):
        self.cfg, self.m, self.conv = cfg, m, isconv

    def img(self, x):
        return x.reshape(len(x), self.cfg["C"], self.cfg["H"], self.cfg["W"]) if self.conv else x

    def ll(self, x):
        with torch.no_grad():
            return self.m(self.img(x)).reshape(len(x), -1)

    def sample(self, evidence=None, **kw):
        if evidence is not None:
            kw["evidence"] = self.img(evidence)
        return self.m.sample(**kw).detach()

    def mpe(self, evidence=None):
        kw = {} if evidence is None else {"evidence": self.img(evidence)}
        return (self.m.sample(is_mpe=True, **kw) if self.conv else self.m.mpe(**kw)).detach()


@st.composite
def st_model(draw, discrete=False, kinds=ALL):
    isconv = draw(st.integers(0, 3)) == 0
    kinds = ("bernoulli", "categorical", "binomial") if discrete else kinds
    if isconv:
        cfg = draw(conv.conv_cfg(kinds=kinds, max_cells=9 if discrete else 36, max_states=1024 if discrete else None))
    elif discrete:
        cfg = draw(gen.einet_cfg(wide="SIRK", kinds=kinds, max_states=1024, max_F=6))
    else:
        cfg = draw(gen.einet_cfg(wide="SIRKCFV", kinds=kinds, max_states=None, max_F=12, max_C=3, leaf_gains=(0.0, 1.0, 2.0)))
    return {"cfg": cfg, "conv": isconv, "n": draw(st.integers(1, 5)), "s": draw(gen.SEED), "p": draw(st.sampled_from([0.2, 0.5, 0.8]))}


def make(case, t):
    cfg = case["cfg"]
    m = conv.build(cfg) if case["conv"] else gen.build(cfg)
    t.label("convpc" if case["conv"] else "einet", *(conv.labels(cfg) if case["conv"] else gen.labels(cfg)))
    t.nontrivial(conv.nontrivial(cfg) if case["conv"] else gen.nontrivial(cfg))
    return m


def precise(cfg, n, seed):
    """In-support double inputs; continuous ones with digits beyond single precision."""
    x = gen.random_states(cfg, n, seed).double()
    for f, dom in enumerate(gen.domain(cfg)):
        if dom is None:
            x[:, :, f] += 1e-3 * torch.rand(n, cfg["C"], dtype=torch.float64, generator=torch.Generator().manual_seed(seed + f))
    return x


# ------------------------------------------------------------ exactness of discrete models
@st.composite
def st_exact(draw):
    return draw(st_model(discrete=True))


def run_exact(case, t):
    cfg = case["cfg"]
    m = make(case, t)
    w = Wrap(cfg, doubled(m, t), case["conv"])
    lo = Wrap(cfg, m, case["conv"])
    X = gen.all_states(cfg)
    L = w.ll(X.double())
    t.ok(L.dtype == torch.float64, f"likelihoods of a double model in {L.dtype}")
    close(t, lo.ll(X), L, "log-likelihood")
    tot = torch.logsumexp(L, 0)
    t.ok(float(tot.abs().max()) < 1e-9, f"log of the total probability {tot.tolist()}")
    allmiss = w.ll(torch.full_like(X[:1], NAN).double())
    t.ok(float(allmiss.abs().max()) < 1e-9, f"log-likelihood with everything missing {allmiss.tolist()}")
    g = torch.Generator().manual_seed(case["s"])
    rows = X[torch.randint(len(X), (case["n"],), generator=g)].double()
    miss = torch.rand(rows.shape, generator=g) < case["p"]
    got = w.ll(rows.masked_fill(miss, NAN))
    for i in range(len(rows)):
        hit = ((X.double() == rows[i]) | miss[i]).flatten(1).all(1)
        want = torch.logsumexp(L[hit], 0)
        t.ok(float((got[i] - want).abs().max()) < 1e-9, f"marginal {got[i].tolist()}, sum over the missing values {want.tolist()}")
    if not case["conv"] and cfg["K"] > 1:
        with torch.no_grad():
            p = w.m.posterior(rows)
            want = torch.log_softmax(w.ll(rows), 1)
        t.ok(p.dtype == torch.float64 and float((p - want).abs().max()) < 1e-9, f"posterior {p.tolist()}, expected {want.tolist()}")


# ------------------------------------------------------------ leaves in double precision
@st.composite
def st_leaves(draw):
    case = draw(leaf.layer(wide=True, max_n=255))
    case.update(n=draw(st.integers(1, 5)), q=draw(gen.SEED), spread=draw(st.sampled_from([2.0, 0.1, 30.0])))
    return case


def run_leaves(case, t):
    spec = case["leaf"]
    m = leaf.make(case).double()
    t.label("leaf=" + spec["type"])
    t.nontrivial(max(case["C"], case["F"], case["L"], case["R"]) > 1)
    x = precise({"F": case["F"], "C": case["C"], "leaf": spec}, case["n"], case["q"])
    if gen.leaf_values(spec) is None:
        x = case["spread"] * x
    with torch.no_grad():
        got = m(x, None)
    t.ok(got.dtype == torch.float64, f"log-densities of a double leaf in {got.dtype}")
    P = leaf.ref_params(spec, m)
    want = leaf.log_prob(spec, P, x)
    tol = 1e-9 * (1 + want.abs())
    judged = torch.ones_like(want, dtype=torch.bool)
    if "logit" in P:
        judged = (P["logit"].abs() <= 12).expand_as(want)
        tol = tol * (1 + spec.get("n", 1) * P["logit"].abs().clamp(max=12).exp() * 1e-6)
    elif "tril" in P:
        cond = torch.linalg.cond(P["tril"])
        judged = (cond < 1e3).expand_as(want)
        tol = tol * (1 + cond.clamp(max=1e3))
    elif spec["type"] == "ratnormal":
        judged = (P["sigma"] > 1e-3).expand_as(want)
    bad = judged & ~((got - want).abs() <= tol)
    if bool(bad.any()):
        i = tuple(bad.nonzero()[0].tolist())
        t.fail(f"{spec['type']}: log-density in double precision {float(got[i])!r}, reference {float(want[i])!r}")
    t.checks += 1


# ------------------------------------------------------------ agreement of the precisions on any model
@st.composite
def st_agree(draw):
    return draw(st_model())


def run_agree(case, t):
    cfg = case["cfg"]
    m = make(case, t)
    lo, hi = Wrap(cfg, m, case["conv"]), Wrap(cfg, doubled(m, t), case["conv"])
    x = gen.random_states(cfg, case["n"], case["s"])  # representable in both
    a, b = lo.ll(x), hi.ll(x.double())
    t.ok(b.dtype == torch.float64, f"likelihoods of a double model in {b.dtype}")
    close(t, a, b, "log-likelihood")
    miss = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]
    ev = x.masked_fill(miss, NAN)
    close(t, lo.ll(ev), hi.ll(ev.double()), "log-likelihood with missing values")
    # most probable completions
    if not case["conv"] and cfg["K"] > 1:
        return
    for q, e in (("complete", x), ("some missing", ev), ("all missing", torch.full_like(x, NAN))):
        p, r = lo.mpe(e).reshape(x.shape).double(), hi.mpe(e.double()).reshape(x.shape).double()
        d = (p - r).abs().flatten(1).amax(1) / (1 + p.abs().flatten(1).amax(1))
        for i in torch.nonzero(d > 1e-4).flatten().tolist():
            # an exact tie (or one up to rounding) may be resolved differently
            t.label("mpe-differs")
            lp, lr = hi.ll(p[i : i + 1]), hi.ll(r[i : i + 1])
            if bool((lp - lr).abs().max() < 1e-3) or ties.unsettled(m, lambda v: Wrap(cfg, v, case["conv"]).mpe(e[i : i + 1])):
                continue
            t.fail(f"most probable completion ({q}) in single precision {p[i].tolist()}, in double {r[i].tolist()}, likelihoods {lp.tolist()}, {lr.tolist()}")


# ------------------------------------------------------------ evidence and supports in every query flavour
@st.composite
def st_query(draw):
    case = draw(st_model())
    case["model64"] = draw(st.booleans())
    case["ev"] = draw(st.sampled_from(["float64", "float64", "float32", "none"]))
    case["q"] = draw(st.sampled_from(["sample", "mpe", "leaves"] if case["conv"] else ["sample", "mpe", "mpe-method", "leaves", "diff", "diff-mpe"]))
    case["scopes"] = draw(st.booleans())
    case["temp"] = draw(st.sampled_from([1.0, 1.0, 0.5, 2.0]))
    return case


def is_binomial(cfg, f):
    leaf = cfg["leaf"]
    if leaf["type"] == "multi":
        leaf = [p["leaf"] for p in leaf["parts"] if f in p["scopes"]][0]
    return leaf["type"] == "binomial"


def run_query(case, t):
    cfg = case["cfg"]
    m = make(case, t)
    if case["model64"]:
        m = doubled(m, t)
    t.label("model64" if case["model64"] else "model32", "evidence " + case["ev"], case["q"])
    w = Wrap(cfg, m, case["conv"])
    n, C, F = case["n"], cfg["C"], cfg["F"]
    q = case["q"]
    kw = {"is_mpe": q in ("mpe", "diff-mpe"), "mpe_at_leaves": q == "leaves"}
    if q.startswith("diff"):
        kw["is_differentiable"] = True
    x = precise(cfg, n, case["s"])
    mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"]
    if case["ev"] == "float32":
        x = x.float()
    if case["ev"] == "none":
        mask[:] = True
        if q == "mpe-method":
            o = w.mpe()
            n = len(o)
            x, mask = x[:1].expand(n, -1, -1), mask[:1].expand(n, -1, -1)
        else:
            o = w.sample(num_samples=n, temperature_leaves=case["temp"], temperature_sums=case["temp"], **kw)
    else:
        if case["scopes"] and not case["conv"]:
            cols = torch.nonzero(mask.any(1).any(0)).flatten().tolist()
            mask = torch.zeros_like(mask)
            mask[:, :, cols] = True
            o = w.sample(evidence=x.clone(), marginalized_scopes=cols, **kw) if cols else w.sample(evidence=x.clone(), **kw)
        elif q == "mpe-method":
            o = w.mpe(x.masked_fill(mask, NAN))
        else:
            o = w.sample(evidence=x.masked_fill(mask, NAN), temperature_leaves=case["temp"], temperature_sums=case["temp"], **kw)
    t.ok(o.numel() == n * C * F, f"shape {tuple(o.shape)}")
    o = o.reshape(n, C, F)
    t.ok(o.is_floating_point(), f"result of type {o.dtype}")
    if case["ev"] == "float64":
        t.ok(o.dtype == torch.float64, f"double evidence comes back in {o.dtype}")
    obs = ~mask
    t.ok(torch.equal(o[obs].double(), x[obs].double()), lambda: f"observed {x[obs][o[obs].double() != x[obs].double()][:3].tolist()} came back as {o[obs][o[obs].double() != x[obs].double()][:3].tolist()}")
    sup = gen.in_support(cfg, o)
    if q == "diff" or (case["conv"] and q == "sample"):  # convolutional circuits always sample differentiably
        for f in range(F):
            if is_binomial(cfg, f):
                sup[:, :, f] = torch.isfinite(o[:, :, f]) & (o[:, :, f] >= 0) & (o[:, :, f] <= gen.domain(cfg)[f][-1])
    bad = mask & ~sup
    t.ok(not bool(bad.any()), f"missing entries filled with {o[bad][:5].tolist()} (not in the support)")


# ------------------------------------------------------------ other input types
@st.composite
def st_types(draw):
    case = draw(st_model(discrete=True))
    case["dtype"] = draw(st.sampled_from(["int64", "int32", "uint8", "int8", "bool", "float16", "bfloat16", "float64"]))
    case["model64"] = draw(st.booleans())
    return case


def run_types(case, t):
    cfg = case["cfg"]
    m = make(case, t)
    if case["model64"]:
        m = m.double()
    w = Wrap(cfg, m, case["conv"])
    x = gen.random_states(cfg, case["n"], case["s"])
    if case["dtype"] == "bool":
        x = x.clamp(max=1)
    t.label(case["dtype"], "model64" if case["model64"] else "model32")
    xt = x.to(getattr(torch, case["dtype"]))
    want = w.ll(x.double() if case["model64"] else x)
    got = w.ll(xt)
    t.ok(got.is_floating_point() and torch.allclose(got.double(), want.double(), rtol=1e-5, atol=1e-5), f"likelihoods {got.tolist()} of {case['dtype']} inputs, {want.tolist()} of the same floats")


# ------------------------------------------------------------ mixtures
@st.composite
def st_mixture(draw):
    case, qs = draw(p26.st_mix(convpc=True)), ["sample", "mpe"]
    if case["cfg"]["conv"]:
        qs = ["sample"]
    case.update({"qn": draw(st.integers(2, 6)), "qs": draw(gen.SEED), "p": draw(st.sampled_from([0.2, 0.5])),
                 "q": draw(st.sampled_from(qs)), "ev": draw(st.sampled_from(["float64", "float64", "float32"])), "model64": draw(st.booleans())})
    return case


def run_mixture(case, t):
    cfg = case["cfg"]
    m, data = p26.build(case)
    p26.lab(case, t)
    t.nontrivial(case["n"] > 1)
    md = doubled(m, t)
    x = p26.data_for(case, case["qn"], case["qs"])
    xs = p26.shaped(cfg, x)
    k, clear = p26.route(m, x)
    k2, clear2 = p26.route(md, x.double())
    with torch.no_grad():
        a, b = m(xs).reshape(len(x), -1), md(xs.double()).reshape(len(x), -1)
    t.ok(b.dtype == torch.float64, f"likelihoods of a double mixture in {b.dtype}")
    sel = clear & clear2
    close(t, a[sel], b[sel], "log-likelihood of a mixture")
    x = precise(cfg, case["qn"], case["qs"])
    if case["ev"] == "float32":
        x = x.float()
    mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["qs"])) < case["p"]
    use = md if case["model64"] else m
    t.label("model64" if case["model64"] else "model32", "evidence " + case["ev"], case["q"])
    ev = p26.shaped(cfg, x.masked_fill(mask, NAN))
    o = (use.mpe(evidence=ev) if case["q"] == "mpe" else use.sample(evidence=ev)).detach().reshape(x.shape)
    obs = ~mask
    t.ok(torch.equal(o[obs].double(), x[obs].double()), lambda: f"observed {x[obs][:3].tolist()} came back as {o[obs][:3].tolist()}")
    t.ok(bool(torch.isfinite(o).all()), "missing entries not filled")


SUBS = [
    Sub("leaves", st_leaves, run_leaves, quick=600, desc="log-densities of leaf layers in double precision against the float64 reference"),
    Sub("exact", st_exact, run_exact, quick=700, desc="enumeration, marginals and posteriors at double accuracy"),
    Sub("agree", st_agree, run_agree, quick=700, desc="likelihoods and most probable completions of both precisions"),
    Sub("query", st_query, run_query, quick=1500, desc="every query flavour of models and evidence of both precisions"),
    Sub("types", st_types, run_types, quick=400, desc="inputs of integer, boolean and half types"),
    Sub("mixture", st_mixture, run_mixture, quick=250, desc="mixtures in double precision"),
]
