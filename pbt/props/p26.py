"""P26: a mixture routes every row to its cluster's model and keeps row order."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import conv, gen, stats, ties
from ..core import Sub
from .p10 import same_states, states

RULE = ("A case is a Mixture of 1-4 Einets or ConvPcs with seeded parameters, initialised on generated (clustered, duplicated or tiny) data, "
        "and a query batch. Non-trivial: at least two components are used by the query.")
ASSUMPTIONS = ["fast_pytorch_kmeans is not installed: a stand-in with its API (Lloyd's algorithm, max_sim) is used",
               "data for binomial mixtures are given in [0, 1] at initialisation (the code scales the centroids by total_count)",
               "rows whose two nearest centroids tie to float accuracy are not judged",
               "statistical tests: a violation needs p < 1e-6 twice, on independent samples"]
NAN = float("nan")
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")


@st.composite
def st_mix(draw, kinds=ALL, convpc=True, max_F=8, max_C=2, max_K=2):
    if convpc and draw(st.integers(0, 3)) == 0:
        cfg = draw(conv.conv_cfg(kinds=kinds, max_cells=16, max_states=None, max_ch=3, max_L=2, max_C=2))
        cfg["conv"] = True
    else:
        cfg = draw(gen.einet_cfg(wide="SIR", kinds=kinds, max_states=None, max_F=max_F, max_C=max_C, max_S=2, max_I=3, max_R=2, max_K=max_K, with_multi=False,
                                 leaf_gains=(0.5, 1.0)))
        cfg["conv"] = False
    return {"cfg": cfg, "n": draw(st.sampled_from([2, 3, 1, 4])), "dseed": draw(gen.SEED), "dn": draw(st.integers(4, 40)),
            "dup": draw(st.integers(0, 3)) == 0, "loader": draw(st.booleans())}


def data_for(case, n, seed, clustered=True):
    """Rows in the input domain, in clusters if continuous."""
    cfg = case["cfg"]
    x = gen.random_states(cfg, n, seed)
    if clustered and gen.domain(cfg)[0] is None:
        g = torch.Generator().manual_seed(case["dseed"])
        centers = 6 * torch.randn(5, *x.shape[1:], generator=g)
        x = x * 0.3 + centers[torch.randint(5, (n,), generator=torch.Generator().manual_seed(seed))]
    return x


def scale_of(cfg):
    return float(cfg["leaf"]["n"]) if cfg["leaf"]["type"] == "binomial" else 1.0


def build(case):
    from torch.utils.data import DataLoader, TensorDataset

    from simple_einet.data import Shape
    from simple_einet.mixture import Mixture

    cfg = case["cfg"]
    gen.seed_all(cfg["seed"])
    if cfg["conv"]:
        from simple_einet.conv_pc import ConvPcConfig

        cls, kw = gen.leaf_class_kwargs(cfg["leaf"])
        mc = ConvPcConfig(channels=list(cfg["channels"]), kernel_size=cfg["k"], num_channels=cfg["C"], leaf_type=cls, leaf_kwargs=kw,
                          structure=cfg["struct"], order=cfg["order"])
        m = Mixture(case["n"], mc, Shape(cfg["C"], cfg["H"], cfg["W"]))
    else:
        m = Mixture(case["n"], gen.einet_config(cfg))
    for i, c in enumerate(m.models):
        gen.used(c, shaped(cfg, gen.random_states(cfg, 2, 0)), cfg["seed"])
        gen.perturb(c, cfg["seed"] + i, cfg["gs"], cfg["gl"])
    data = data_for(case, case["dn"], case["dseed"])
    if case.get("sorted"):  # the rows come in an order (collected by site, class, ...)
        data = data[data.reshape(len(data), -1).sum(1).argsort()]
    if case["dup"]:
        data = data[:1].expand(case["dn"], -1, -1).clone()
    init = shaped(cfg, data / scale_of(cfg))
    if case["loader"]:
        m.initialize(dataloader=DataLoader(TensorDataset(init, torch.zeros(len(init))), batch_size=case.get("batch", 7)), device="cpu")
    else:
        m.initialize(data=init)
    return m.eval(), data


def shaped(cfg, x):
    if cfg["conv"]:
        return x.reshape(len(x), cfg["C"], cfg["H"], cfg["W"])
    return x


def route(m, x, hide=None):
    """Nearest centroid over the visible entries (float64) and whether it is clearly the nearest."""
    x = x.reshape(len(x), -1).double()
    c = m.centroids.reshape(m.n_components, -1).double()
    d = (x[:, None, :] - c[None]) ** 2
    vis = ~torch.isnan(x)
    if hide is not None:
        vis = vis & ~hide.reshape(len(x), -1)
    d = torch.where(vis[:, None, :], d, torch.zeros_like(d)).sum(-1)
    k = d.argmin(1)
    if m.n_components == 1:
        return k, torch.ones(len(x), dtype=torch.bool)
    s = torch.sort(d, 1)[0]
    scale = torch.where(vis, x, torch.zeros_like(x)).square().sum(1) + c.square().sum(1).max()
    return k, (s[:, 1] - s[:, 0]) > 1e-4 * (1 + scale)


def lab(case, t):
    cfg = case["cfg"]
    t.label("convpc" if cfg["conv"] else "einet", "n=%d" % case["n"], "leaf=" + cfg["leaf"]["type"], "C>1" if cfg["C"] > 1 else "C=1",
            "dup" if case["dup"] else "spread")


# ------------------------------------------------------------ likelihoods
@st.composite
def st_lik(draw):
    case = draw(st_mix())
    case.update(qn=draw(gen.rows(1, 9)), q=draw(gen.SEED), how=draw(st.sampled_from(["plain", "scopes", "nan", "both", "strided", "order"])),
                scopes=draw(st.lists(st.integers(0, case["cfg"]["F"] - 1), min_size=1, unique=True)))
    return case


def run_lik(case, t):
    cfg = case["cfg"]
    m, data = build(case)
    lab(case, t)
    n = case["n"]
    # initialisation: one centroid per component, weights = proportions of the data
    D = cfg["C"] * cfg["F"]
    t.ok(tuple(m.centroids.shape) == (n, D), f"centroids of shape {tuple(m.centroids.shape)}, expected {(n, D)}")
    t.ok(tuple(m.mixture_weights.shape) == (n,), f"mixture weights of shape {tuple(m.mixture_weights.shape)} for {n} components")
    k, clear = route(m, data)
    w = torch.bincount(k, minlength=n).double() / len(data)
    slack = float((~clear).sum()) / len(data) + 1e-5
    t.ok(bool(((m.mixture_weights.double() - w).abs() <= slack).all()), f"mixture weights {m.mixture_weights.tolist()}, cluster proportions of the data {w.tolist()}")
    if bool(clear.all()):
        for c in range(n):
            if (k == c).any():
                mean = data[k == c].reshape(-1, D).mean(0)
                t.ok(bool(((m.centroids[c] - mean).abs() < 1e-3 + 1e-3 * mean.abs()).all()), f"centroid {c} is not the mean of its rows")
    # query
    x = data_for(case, case["qn"], case["q"])
    kw, hide = {}, None
    if case["how"] in ("scopes", "both"):
        hide = torch.zeros_like(x, dtype=torch.bool)
        hide[:, :, case["scopes"]] = True
        kw["marginalized_scope"] = list(case["scopes"])
    if case["how"] in ("nan", "both"):
        x = x.masked_fill(torch.rand(x.shape, generator=torch.Generator().manual_seed(case["q"])) < 0.4, NAN)
    inp = shaped(cfg, x)
    if case["how"] == "strided":
        inp = inp.transpose(-1, -2).contiguous().transpose(-1, -2)
    before = inp.clone()
    with torch.no_grad():
        got = m(inp, **kw)
    t.label(case["how"])
    t.ok(bool(((inp == before) | (inp.isnan() & before.isnan())).all()), "the input was modified")
    k, clear = route(m, x, hide)
    t.nontrivial(len(set(k.tolist())) > 1)
    t.ok(got.shape[0] == len(x), f"{got.shape[0]} results for {len(x)} rows")
    for i in range(len(x)):
        if not clear[i]:
            continue
        with torch.no_grad():
            want = m.models[int(k[i])](inp[i : i + 1], **({"marginalized_scopes": list(case["scopes"])} if kw else {}))
        want = want.reshape(-1)
        g = got[i].reshape(-1)
        t.ok(g.shape == want.shape and bool(((g - want).abs() <= 1e-4 + 1e-5 * want.abs()).all()),
             f"row {i}: {g.tolist()}, the component of its nearest centroid ({int(k[i])}) gives {want.tolist()}")
    perm = torch.randperm(len(x), generator=torch.Generator().manual_seed(case["q"]))
    with torch.no_grad():
        other = m(inp[perm], **kw)
    sel = clear[perm]
    t.ok(torch.allclose(other.reshape(len(x), -1)[sel], got.reshape(len(x), -1)[perm][sel], atol=1e-4, rtol=1e-5), "results do not follow the rows when the batch is permuted")


@st.composite
def st_big(draw):
    """Mixtures initialised from many rows."""
    case = draw(st_mix(max_F=4, convpc=False))
    case.update(dn=draw(st.sampled_from([300, 2500, 6000, 20000])), batch=draw(st.sampled_from([64, 250, 1000, 30000])), sorted=draw(st.booleans()), dup=False,
                qn=4, q=draw(gen.SEED), how="plain", scopes=[0])
    return case


# ------------------------------------------------------------ conditional queries
@st.composite
def st_evid(draw):
    case = draw(st_mix())
    case.update(qn=draw(st.integers(1, 7)), q=draw(gen.SEED), how=draw(st.sampled_from(["nan", "nan", "scopes", "both"])), p=draw(st.sampled_from([0.2, 0.5, 0.9])),
                scopes=draw(st.lists(st.integers(0, case["cfg"]["F"] - 1), min_size=1, unique=True)),
                query=draw(st.sampled_from(["mpe", "mpe-method", "sample", "leaves", "cold", "cold-leaf", "cold-sum"])), seed=draw(st.integers(0, 10**6)), g=draw(gen.SEED))
    return case


def run_evid(case, t):
    cfg = case["cfg"]
    m, _ = build(case)
    lab(case, t)
    x = data_for(case, case["qn"], case["q"])
    kw, hide = {}, None
    if case["how"] == "nan":
        mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["q"])) < case["p"]
        ev = x.masked_fill(mask, NAN)
    else:
        mask = torch.zeros_like(x, dtype=torch.bool)
        mask[:, :, case["scopes"]] = True
        hide = mask
        ev = x.clone()
        if case["how"] == "both":
            mask |= torch.rand(x.shape, generator=torch.Generator().manual_seed(case["q"])) < case["p"]
            ev = x.masked_fill(mask, NAN)
        kw["marginalized_scopes"] = list(case["scopes"])
    inp = shaped(cfg, ev)
    k, clear = route(m, ev, hide)
    t.label(case["how"], case["query"])
    t.nontrivial(len(set(k.tolist())) > 1 and bool(mask.any()))
    q = case["query"]
    before = inp.clone()
    gen.seed_all(case["g"])
    s0 = states()
    flags = {"mpe": dict(is_mpe=True), "sample": {}, "leaves": dict(mpe_at_leaves=True), "cold": dict(temperature_sums=1e-5, mpe_at_leaves=True),
             "mpe-method": None, "cold-leaf": dict(temperature_leaves=1e-12), "cold-sum": dict(temperature_sums=1e-9)}[q]
    if flags is None:
        out = m.mpe(evidence=inp, **kw).detach()
    else:
        out = m.sample(evidence=inp, seed=case["seed"], **flags, **kw).detach()
        t.ok(same_states(s0, states()), "a seeded call changed the global random state")
        gen.seed_all(case["g"] + 1)
        again = m.sample(evidence=inp, seed=case["seed"], **flags, **kw).detach()
        t.ok(torch.equal(out, again), "two calls with the same seed differ")
    t.ok(out.shape == inp.shape, f"result shape {tuple(out.shape)} for evidence {tuple(inp.shape)}")
    t.ok(bool(((inp == before) | (inp.isnan() & before.isnan())).all()), "the evidence was modified")
    o = out.reshape(x.shape)
    t.ok(bool((o[~mask] == x[~mask]).all()), "an observed entry changed")
    t.ok(bool(torch.isfinite(o).all()), "a missing entry was not filled")
    for i in range(len(x)):
        if not clear[i]:
            continue
        comp = m.models[int(k[i])]
        with torch.no_grad():
            if q.startswith("mpe"):
                want = comp.sample(evidence=inp[i : i + 1], is_mpe=True, **kw).detach()
            elif q == "cold":
                many = inp[i : i + 1].repeat(200, *[1] * (inp.dim() - 1))
                want = comp.sample(evidence=many, temperature_sums=1e-5, mpe_at_leaves=True, seed=1, **kw).detach()
                if not torch.allclose(want, want[:1].expand_as(want), atol=1e-4):  # a choice that stays open
                    continue
                want = want[:1]
            elif q == "cold-sum":
                # only the branch choice is frozen: normal leaves still draw at their own scale
                if cfg["leaf"]["type"] == "normal":
                    modes = leaf_modes(comp).reshape(cfg["C"], cfg["F"], -1)
                    near = ((o[i][..., None] - modes).abs() < 1e-4 * (1 + modes.abs())).any(-1)
                    t.ok(not (bool(mask[i].any()) and bool(near[mask[i]].all())) or int(mask[i].sum()) < 3, f"row {i}: with a cold temperature_sums all filled values sit on leaf modes")
                continue
            elif q == "cold-leaf" and cfg["leaf"]["type"] != "normal":
                continue
            elif q in ("leaves", "cold-leaf"):
                # every filled value is a leaf mode of the row's component
                modes = leaf_modes(comp).reshape(cfg["C"], cfg["F"], -1)
                hit = ((o[i][..., None] - modes).abs() < 1e-3).any(-1)
                t.ok(bool(hit[mask[i]].all()), f"row {i}: with {flags} a filled value is not a leaf mode of component {int(k[i])}")
                continue
            else:
                continue
        want = want.reshape(x.shape[1:])
        if not torch.allclose(o[i], want, atol=1e-4):
            row = inp[i : i + 1]
            head = None if cfg["conv"] else comp(row, marginalized_scopes=kw.get("marginalized_scopes"))
            if ties.unsettled(comp, lambda v: v.sample(evidence=row, is_mpe=True, **kw), head):
                t.label("tie")
                continue
            ll = comp(shaped(cfg, torch.stack([o[i], want])))
            ll = torch.logsumexp(ll.reshape(2, -1), 1)
            t.ok(bool((ll[0] - ll[1]).abs() < 1e-3 + 2e-6 * ll[0].abs()), f"row {i}: {o[i].tolist()}, component {int(k[i])} gives {want.tolist()}")


def leaf_modes(comp):
    """All leaf modes [C, F, L*R] of an Einet/ConvPc component, via the public leaf interface."""
    from simple_einet.layers.distributions.abstract_leaf import AbstractLeaf, dist_mode
    from simple_einet.sampling_utils import SamplingContext

    leaf = [q for q in comp.modules() if isinstance(q, AbstractLeaf) and hasattr(q, "marginalization_constant") and not hasattr(q, "base_leaf")][0]
    with torch.no_grad():
        ctx = SamplingContext(num_samples=1, is_mpe=True)
        d = leaf._get_base_distribution(SamplingContext(num_samples=1, is_mpe=True, is_differentiable=False))
        mo = dist_mode(d, ctx).float()
    return mo.reshape(*mo.shape[-4:]).flatten(2)


# ------------------------------------------------------------ which component is drawn
@st.composite
def st_draw(draw):
    case = draw(st_mix(kinds=("normal",), max_F=4, max_C=1))
    case["cfg"]["gl"] = 0.0
    case["dup"] = case["dup"] and case["n"] == 1
    case.update(g=draw(gen.SEED), rows=draw(st.integers(1, 4)), per=draw(st.integers(1, 5)), seed=draw(st.integers(0, 10**6)), big=draw(st.sampled_from([5, 20, 60])))
    return case


def run_draw(case, t):
    from simple_einet.layers.distributions.normal import Normal

    cfg = case["cfg"]
    m, _ = build(case)
    n = case["n"]
    lab(case, t)
    for k, comp in enumerate(m.models):
        for q in comp.modules():
            if isinstance(q, Normal):
                with torch.no_grad():
                    q.means.fill_(100.0 * k)
                    q.logvar.fill_(-2.0)
    which = lambda x: (x.reshape(len(x), -1).mean(1) / 100).round().long()
    shape = lambda x, rows: t.ok(tuple(x.shape) == (rows, *shaped(cfg, torch.zeros(rows, cfg["C"], cfg["F"])).shape[1:]), f"sample shape {tuple(x.shape)} for {rows} samples")
    w = m.mixture_weights.double()
    t.nontrivial(n > 1 and bool((w > 0.05).sum() > 1))
    # exactly `per` samples from every component
    x = m.sample(num_samples_per_cluster=case["per"], seed=case["seed"]).detach()
    shape(x, n * case["per"])
    c = torch.bincount(which(x).clamp(0, n - 1), minlength=n)
    t.ok(bool((c == case["per"]).all()), f"num_samples_per_cluster={case['per']} drew {c.tolist()} samples from the components")
    # reproducible, global state untouched, fresh otherwise
    gen.seed_all(case["g"])
    s0 = states()
    a = m.sample(num_samples=case["big"], seed=case["seed"]).detach()
    t.ok(same_states(s0, states()), "a seeded call changed the global random state")
    gen.seed_all(case["g"] + 7)
    b = m.sample(num_samples=case["big"], seed=case["seed"]).detach()
    shape(a, case["big"])
    t.ok(torch.equal(a, b), "two unconditional calls with the same seed differ")
    u = m.sample(num_samples=case["big"]).detach()
    v = m.sample(num_samples=case["big"]).detach()
    t.ok(not torch.equal(u, v), "two unseeded calls agree")
    # the row at any position follows the proportions, seeded or not
    for seeded in (False, True):
        cache = {}

        def rows(N, s):
            if (N, s) not in cache:
                torch.manual_seed(s + 1000)
                cache[(N, s)] = torch.stack([which(m.sample(num_samples=case["rows"], **({"seed": s * 100003 + i} if seeded else {})).detach()) for i in range(N)])
            return cache[(N, s)]

        for r in range(case["rows"] if not seeded else 1):
            ok, d = stats.two_stage(lambda N, s: np.bincount(rows(N, s)[:, r].clamp(0, n - 1).numpy(), minlength=n), w.numpy(), 120, 1200)
            t.ok(ok, f"row {r} of {'seeded' if seeded else 'unseeded'} samples does not draw its component by the weights {w.tolist()} (p={d})")
    torch.manual_seed(case["g"])
    ok, d = stats.two_stage(lambda N, s: np.bincount(which(m.sample(num_samples=N, seed=s).detach()).clamp(0, n - 1).numpy(), minlength=n), w.numpy(), 1500)
    t.ok(ok, f"component frequencies do not follow the weights {w.tolist()} (p={d})")
    # MPE: the heaviest component, one row per requested sample
    if n == 1 or float(w.sort(descending=True)[0][:2].diff().abs()) > 1e-6:
        for q in (1, 3):
            x = m.sample(num_samples=q, is_mpe=True).detach()
            shape(x, q)
            t.ok(bool((which(x) == int(w.argmax())).all()), "unconditional MPE is not that of the heaviest component")
        x = m.sample(is_mpe=True).detach()
        shape(x, 1)
    cold = m.sample(num_samples=6, temperature_leaves=1e-10, seed=3).detach()
    t.ok(bool(((cold / 100 - (cold / 100).round()).abs() < 1e-3).all()), "temperature_leaves does not reach the components")
    lv = m.sample(num_samples=6, mpe_at_leaves=True, seed=3).detach()
    t.ok(bool(((lv / 100 - (lv / 100).round()).abs() < 1e-5).all()), "mpe_at_leaves does not reach the components")


# ------------------------------------------------------------ class requests
@st.composite
def st_class(draw):
    case = draw(st_mix(kinds=("normal", "categorical"), convpc=False, max_F=5, max_C=2, max_K=4))
    case["cfg"]["K"] = max(2, case["cfg"]["K"])
    case["cfg"]["gs"] = 4.0
    q = draw(st.integers(1, 8))
    case.update(q=q, cls=draw(st.lists(st.integers(0, case["cfg"]["K"] - 1), min_size=q, max_size=q)), one=draw(st.booleans()),
                per=draw(st.sampled_from([None, None, 1, 2])), mpe=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))
    return case


def run_class(case, t):
    """Class requests reach the component a sample is drawn from, one class for all or one per sample."""
    cfg = case["cfg"]
    m, _ = build(case)
    lab(case, t)
    n = case["n"]
    kw = dict(is_mpe=True) if case["mpe"] else dict(temperature_sums=1e-9, mpe_at_leaves=True, seed=case["seed"])
    rows = case["q"]
    if case["per"] is not None and not case["mpe"]:
        rows = case["per"] * n
        num = dict(num_samples_per_cluster=case["per"])
    else:
        num = dict(num_samples=case["q"])
    cls = [case["cls"][i % case["q"]] for i in range(rows)]
    req = cls[0] if case["one"] else cls
    if case["one"]:
        cls = [req] * rows
    out = m.sample(class_index=req, **num, **kw).detach()
    t.label("one" if case["one"] else "list", "mpe" if case["mpe"] else "cold", "per" if "num_samples_per_cluster" in num else "n")
    t.ok(out.shape[0] == rows, f"{out.shape[0]} samples, expected {rows}")
    # the (nearly) deterministic result of every component and class
    want, sure = {}, {}
    for k in range(n):
        for c in range(cfg["K"]):
            kk = dict(kw)
            kk.pop("seed", None)
            a = m.models[k].sample(1 if case["mpe"] else 200, class_index=c, **kk, **({} if case["mpe"] else {"seed": 1})).detach()
            want[k, c], sure[k, c] = a[0], bool(torch.allclose(a, a[:1].expand_as(a), atol=1e-5))
    t.nontrivial(n > 1 and len({tuple(v.flatten().tolist()) for v in want.values()}) > n)
    for i in range(rows):
        if case["mpe"]:
            w = m.mixture_weights
            if n > 1 and float(w.sort(descending=True)[0][:2].diff().abs()) < 1e-6:
                continue
            ks = [int(w.argmax())]
        elif "num_samples_per_cluster" in num:
            ks = [i // case["per"]]
        else:
            ks = [k for k in range(n) if float(m.mixture_weights[k]) > 0]
        if not all(sure[k, cls[i]] for k in ks):
            continue
        t.ok(any(torch.allclose(out[i], want[k, cls[i]], atol=1e-4) for k in ks),
             lambda: f"sample {i} requested from class {cls[i]} is {out[i].flatten().tolist()}, the components give {[want[k, cls[i]].flatten().tolist() for k in ks]}")


SUBS = [
    Sub("classes", st_class, run_class, quick=400, desc="class requests (one, or one per sample) against the components' own class results"),
    Sub("likelihood", st_lik, run_lik, quick=500, desc="initialisation statistics; every row's likelihood against the component of its nearest centroid, any batch order"),
    Sub("big-data", st_big, run_lik, quick=40, desc="initialisation from up to 20000 rows, in random or sorted order: weights and centroids are those of all rows"),
    Sub("evidence", st_evid, run_evid, quick=500, desc="conditional queries row by row against the component of the nearest centroid over observed entries; seeds and flags"),
    Sub("draws", st_draw, run_draw, quick=64, desc="which component unconditional samples come from, per row position, seeded and unseeded"),
]
