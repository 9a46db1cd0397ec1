"""P18: leaf log-densities equal those of the named distribution."""
import torch
from hypothesis import strategies as st

from .. import gen, leaf
from ..core import Sub

RULE = ("A case is a leaf layer with generated shape and parameters and a batch with missing entries or marginalised scopes. "
        "Non-trivial: more than one component, repetition, channel or feature, or a missing entry.")
ASSUMPTIONS = ["logits beyond +-12 are clamped by torch's Bernoulli/Binomial: beyond that only the bound log p <= 0 and finiteness are judged",
               "multivariate normal leaves document no marginalisation", "ConditionalBinomial is not judged (its sampling entry points do not run)"]
NAN = float("nan")


@st.composite
def st_case(draw):
    case = draw(leaf.layer(wide=True, max_n=255))
    case.update(n=draw(gen.rows(1, 6)), q=draw(gen.SEED), spread=draw(st.sampled_from([2.0, 0.1, 30.0])), how=draw(st.sampled_from(["none", "nan", "list", "tensor", "all-nan", "ndim4", "single"])),
                p=draw(st.sampled_from([0.2, 0.6])), scopes=draw(st.lists(st.integers(0, case["F"] - 1), min_size=1, unique=True)))
    return case


def tolerance(spec, want):
    n = spec.get("n", 1)
    return 2e-5 * (1 + want.abs()) + 1e-6 * n * 10


def run(case, t):
    spec = case["leaf"]
    m = leaf.make(case)
    mvn = spec["type"] == "mvn"
    C, F, L, R = case["C"], case["F"], case["L"], case["R"]
    x = leaf.random_x(case, case["n"], case["q"], case["spread"])
    if case["how"] == "single":
        x = x[:1]
    miss = torch.zeros(x.shape, dtype=torch.bool)
    scopes = None
    inp = x.clone()
    if not mvn:
        if case["how"] in ("nan", "all-nan"):
            g = torch.Generator().manual_seed(case["q"])
            miss = torch.rand(x.shape, generator=g) < (case["p"] if case["how"] == "nan" else 2.0)
            inp[miss] = NAN
        elif case["how"] in ("list", "tensor"):
            scopes = case["scopes"] if case["how"] == "list" else torch.tensor(case["scopes"])
            miss[:, :, case["scopes"]] = True
    t.label("leaf=" + spec["type"], case["how"], "C>1" if C > 1 else "C=1", "R>1" if R > 1 else "R=1", "gain=%g" % case["gain"])
    t.nontrivial(max(C, F, L, R) > 1 or bool(miss.any()))
    before, ver = inp.clone(), inp._version
    state = {k: v.clone() for k, v in m.state_dict().items()}
    with torch.no_grad():
        got = m(inp, scopes)
    same = (inp == before) | (inp.isnan() & before.isnan())
    t.ok(bool(same.all()) and inp._version == ver, "the input was modified")
    t.ok(all(torch.equal(state[k], v) for k, v in m.state_dict().items()), "the leaf's state was modified")
    P = leaf.ref_params(spec, m)
    want = leaf.log_prob(spec, P, x)
    t.ok(got.shape == want.shape, f"shape {tuple(got.shape)}, expected {tuple(want.shape)}")
    t.ok(not bool(got.isnan().any()), "NaN log-density")
    g = got.double()
    if not mvn:
        mm = miss[..., None, None].expand_as(g)
        t.ok(bool((g[mm] == 0).all()), f"a missing entry contributes {g[mm][g[mm] != 0][:4].tolist()}, not zero")
        want = torch.where(mm, torch.zeros_like(want), want)
    tol = tolerance(spec, want)
    if mvn:
        k = spec["card"]
        cond = torch.linalg.cond(P["tril"]).double()
        tol = tol * (1 + cond.clamp(max=1e6))
        judged = (cond < 1e3).expand_as(g)
    elif "logit" in P:
        judged = (P["logit"].abs() <= 12).expand_as(g)
        tol = tol + 2e-7 * spec.get("n", 1) * P["logit"].abs().clamp(max=12).exp()  # probabilities near one in float32
        t.ok(bool((g <= 1e-4).all()) and bool(torch.isfinite(g).all()), "log-mass above zero or not finite")
    else:
        judged = torch.ones_like(g, dtype=torch.bool)
    if "sigma" in P:  # (x - mu) / sigma cancels in float32
        z = ((x.double()[..., None, None].abs() + P["mu"].abs()) / P["sigma"]) * 1.2e-7
        zz = ((x.double()[..., None, None] - P["mu"]) / P["sigma"]).abs()
        tol = tol + 4 * z * (zz + z) + 1e-6 * zz**2
    if "sigma" in P and spec["type"] == "ratnormal":
        judged = judged & (P["sigma"] > 1e-3)
        t.ok(bool((P["sigma"] <= spec["max_sigma"] + 1e-6).all()), "reference")
    err = (g - want).abs()
    bad = judged & ~(err <= tol)
    if bool(bad.any()):
        i = tuple(bad.nonzero()[0].tolist())
        t.fail(f"{spec['type']}: log-density at [row, channel, feature, component, repetition]={list(i)} of x={x[i[0], i[1]].tolist()} is {float(got[i])}, reference {float(want[i])}")
    t.checks += 1
    # rows are evaluated independently of each other's values
    if len(x) > 1 and scopes is None:
        with torch.no_grad():
            one = m(inp[-1:], None)
        t.ok(torch.allclose(one, got[-1:], rtol=1e-5, atol=1e-5), "the last row alone has another log-density")


# ------------------------------------------------------------ every value of a discrete leaf: masses sum to one
@st.composite
def st_mass(draw):
    return draw(leaf.layer(wide=True, kinds=("bernoulli", "categorical", "binomial"), max_n=255))


def run_mass(case, t):
    m = leaf.make(case)
    vals = gen.leaf_values(case["leaf"])
    x = torch.tensor(vals, dtype=torch.float32)[:, None, None].expand(len(vals), case["C"], case["F"])
    with torch.no_grad():
        got = m(x, None).double()
    t.label("leaf=" + case["leaf"]["type"])
    t.nontrivial()
    tot = torch.logsumexp(got, 0)
    n = case["leaf"].get("n", 1)
    t.ok(bool((tot.abs() < 1e-5 + 1e-5 * n).all()), f"masses of {case['leaf']} sum to {tot.exp().flatten()[:4].tolist()}")


# ------------------------------------------------------------ all parameters count
@st.composite
def st_par(draw):
    case = draw(leaf.layer(wide=True))
    case.update(q=draw(gen.SEED), which=draw(gen.SEED))
    return case


def run_par(case, t):
    """Changing the parameters of one (channel, feature, component, repetition) changes exactly its log-densities."""
    spec = case["leaf"]
    if spec["type"] == "categorical" and spec["bins"] == 1:
        t.reject()
    m = leaf.make(dict(case, gain=1.0))
    x = leaf.random_x(case, 5, case["q"])
    with torch.no_grad():
        a = m(x, None)
        g = torch.Generator().manual_seed(case["which"])
        c, f, l, r = [int(torch.randint(k, (1,), generator=g)) for k in (a.shape[1], a.shape[2], case["L"], case["R"])]
        for p in m.parameters():
            if p.requires_grad:
                v = p if spec["type"] == "mvn" else p[0]
                v[c, f, l, r] += 0.5 + torch.rand(v[c, f, l, r].shape, generator=g)
        b = m(x, None)
    ch = (a != b).any(0)
    other = ch.clone()
    other[c, f, l, r] = False
    t.nontrivial(ch.numel() > 1)
    t.label("leaf=" + spec["type"])
    t.ok(bool(ch[c, f, l, r]), f"the parameters at {(c, f, l, r)} do not influence their own log-density")
    t.ok(not bool(other.any()), f"the parameters at {(c, f, l, r)} influence the log-density at {other.nonzero()[:3].tolist()}")


SUBS = [
    Sub("density", st_case, run, quick=3500, desc="every leaf against closed-form float64 densities, missing entries and marginalised scopes"),
    Sub("mass", st_mass, run_mass, quick=600, desc="masses of discrete leaves over their whole support"),
    Sub("parameters", st_par, run_par, quick=800, desc="each parameter belongs to its own channel, feature, component and repetition"),
]
