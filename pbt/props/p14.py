"""P14: rows of a batch are evaluated independently; input layouts, strides and dtypes are equivalent."""
import torch
from hypothesis import strategies as st

from .. import conv, gen, ties
from ..core import Sub

RULE = ("A case is a model (Einet, ConvPc or initialised Mixture), a batch of rows with missing entries, a partition of the batch and layouts. "
        "Non-trivial: at least two different rows and a model with a sum node of more than one child.")
ASSUMPTIONS = ["equality is to float32 accuracy (1e-5 relative): vectorised kernels may round differently for different batch sizes",
               "MPE completions are compared by their log-likelihood where two completions tie to 1e-3",
               "rows of a Mixture whose two nearest centroids tie are not judged"]
NAN = float("nan")
KINDS = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")


def close(a, b, tol=2e-5):
    """Equal to float32 accuracy, with equal infinities."""
    fin = torch.isfinite(a) & torch.isfinite(b)
    same = a == b
    return bool((same | (fin & ((a - b).abs() <= tol * (1 + b.abs())))).all())


def loose(net, x, **kw):
    """Tolerance of a posterior: differences of log-likelihoods, whose rounding grows with their size."""
    l = net.ll(net.shape(x), **kw).abs()
    return 1e-4 + 2e-6 * float(l[torch.isfinite(l)].max() if bool(torch.isfinite(l).any()) else 0)


def undecided(net, x, **kw):
    """Is the MPE completion of this row [1, C, F] a matter of rounding?"""
    heads = net.ll(net.shape(x), **kw) if net.heads > 1 else None
    return ties.unsettled(net.m, lambda m: net.mpe(net.shape(x), m=m, **kw), heads)


def holes(x, p, seed):
    g = torch.Generator().manual_seed(seed ^ 77)
    return x.masked_fill(torch.rand(x.shape, generator=g) < p, NAN)


# ------------------------------------------------------------ models behind one interface
class Net:
    """A model over [N, C, F] inputs: kind einet / conv / mixture."""

    def __init__(self, case):
        cfg = case["cfg"]
        self.kind, self.cfg = case["kind"], cfg
        if self.kind == "einet":
            self.m = gen.build(cfg)
        elif self.kind == "conv":
            self.m = conv.build(cfg)
        else:
            from . import p26

            self.m, _ = p26.build({"cfg": cfg, "n": case["comp"], "dseed": case["dseed"], "dn": 20, "dup": False, "loader": False})
        self.image = self.kind == "conv" or cfg.get("conv", False)
        self.heads = cfg["K"] if not self.image else 1

    def shape(self, x):
        c = self.cfg
        return x.reshape(len(x), c["C"], c["H"], c["W"]) if self.image else x

    def ll(self, x, **kw):
        with torch.no_grad():
            return self.m(x, **kw)

    def mpe(self, x, m=None, **kw):
        m = m or self.m
        if self.kind == "conv":
            return m.sample(evidence=x, is_mpe=True, **kw).detach()
        return m.mpe(evidence=x, **kw).detach()

    def clear(self, x):
        if self.kind != "mixture":
            return torch.ones(len(x), dtype=torch.bool)
        from . import p26

        return p26.route(self.m, x)[1]


@st.composite
def st_net(draw, max_F=9, kinds=("einet", "einet", "conv", "mixture")):
    kind = draw(st.sampled_from(kinds))
    case = {"kind": kind}
    if kind == "einet":
        structs = gen.STRUCTS
        if draw(st.integers(0, 7)) == 0:
            c = draw(st.integers(2, 3))
            F = c * draw(st.integers(1, 4))
            case["cfg"] = draw(gen.einet_cfg(wide="SIRK", leaf={"type": "mvn", "card": c}, min_F=F, max_F=F, max_C=2, max_states=None, structs=gen.STRUCTS[:3]))
        else:
            case["cfg"] = draw(gen.einet_cfg(wide="SIRKCFV", huge=True, kinds=KINDS, max_states=None, max_F=max_F, max_C=3, discrete=draw(st.booleans())))
    elif kind == "conv":
        case["cfg"] = draw(conv.conv_cfg(kinds=KINDS, max_cells=24, max_states=None, max_C=3))
    else:
        if draw(st.integers(0, 2)) == 0:
            case["cfg"] = dict(draw(conv.conv_cfg(kinds=KINDS, max_cells=16, max_states=None)), conv=True)
        else:
            case["cfg"] = dict(draw(gen.einet_cfg(wide="SIRKC", kinds=KINDS, max_states=None, max_F=max_F, max_C=2, with_multi=False)), conv=False)
        case.update(comp=draw(st.integers(1, 4)), dseed=draw(gen.SEED))
    return case


def lab(case, t):
    cfg = case["cfg"]
    t.label(case["kind"], "leaf=" + cfg["leaf"]["type"], "C>1" if cfg["C"] > 1 else "C=1", cfg["struct"], cfg.get("layer", "conv"),
            "R>1" if cfg.get("R", 1) > 1 else "R=1")


def busy(case):
    cfg = case["cfg"]
    return conv.nontrivial(cfg) if "channels" in cfg else gen.nontrivial(cfg)


# ------------------------------------------------------------ batches
@st.composite
def st_batch(draw):
    case = draw(st_net())
    n = draw(st.sampled_from([2, 3, 5, 8, 13] * 4 + [65, 130, 300, 512, 1024]))
    case.update(n=n, q=draw(gen.SEED), p=draw(st.sampled_from([0.0, 0.3, 0.7])), cut=draw(st.integers(1, n - 1)), perm=list(draw(st.permutations(range(n)))) if n < 20 else None,
                wide=draw(st.integers(0, 3)) == 0)
    return case


def run_batch(case, t):
    cfg = case["cfg"]
    net = Net(case)
    n = case["n"]
    lab(case, t)
    mvn = cfg["leaf"]["type"] == "mvn"
    x = gen.random_states(cfg, n, case["q"], spread=100.0 if case["wide"] else 1.5)
    if case["p"] and not mvn:
        x = holes(x, case["p"], case["q"])
        # rows without any / with only missing entries next to others
        x[0] = gen.random_states(cfg, 1, case["q"])[0]
    clear = net.clear(x)
    t.nontrivial(busy(case))
    t.label("p=%g" % case["p"])
    perm = torch.randperm(n, generator=torch.Generator().manual_seed(case["q"])) if case["perm"] is None else torch.tensor(case["perm"])
    alone = range(n) if n < 20 else [0, 1, 31, 32, 63, 64, n - 2, n - 1]

    funcs = [("log-likelihood", net.ll, 2e-5)]
    if net.kind == "einet" and net.heads > 1:
        funcs.append(("posterior", lambda v: net.m.posterior(v).detach(), loose(net, x)))
    for name, f, tol in funcs:
        full = f(net.shape(x)).reshape(n, -1)
        t.ok(full.shape[1] == net.heads, f"{name}: {full.shape[1]} values per row, expected {net.heads}")
        t.ok(not bool(full.isnan().any()), f"{name} is NaN")
        for i in alone:
            if clear[i]:
                one = f(net.shape(x[i : i + 1])).reshape(-1)
                t.ok(close(one, full[i], tol), f"{name} of row {i} alone {one.tolist()}, in a batch of {n}: {full[i].tolist()}")
        parts = torch.cat([f(net.shape(x[: case["cut"]])).reshape(-1, net.heads), f(net.shape(x[case["cut"]:])).reshape(-1, net.heads)])
        t.ok(close(parts[clear], full[clear], tol), f"{name} of a batch split at {case['cut']} differs from the whole batch")
        p = f(net.shape(x[perm])).reshape(n, -1)
        t.ok(close(p[clear[perm]], full[perm][clear[perm]], tol), f"{name} of permuted rows is not the permuted {name}")
        twice = f(net.shape(torch.cat([x, x]))).reshape(2 * n, -1)
        both = torch.cat([clear, clear])
        t.ok(close(twice[both], torch.cat([full, full])[both], tol), f"{name} changes when the batch is repeated")
    if mvn:
        return
    # MPE completions
    full = net.mpe(net.shape(x)).reshape(x.shape)
    t.ok(bool(torch.isfinite(full).all()), "MPE completion is not finite")

    def same(rows, got, what, src=x, **kw):
        for i, g in zip(rows, got):
            if not clear[i] or torch.allclose(g, full[i], atol=1e-4, rtol=1e-5):
                continue
            ll = torch.logsumexp(net.ll(net.shape(torch.stack([g, full[i]]))).reshape(2, -1), 1)
            if undecided(net, src[i : i + 1], **kw):
                t.label("tie")
                continue
            t.ok(bool((ll[0] - ll[1]).abs() < 1e-3 + 2e-6 * ll[0].abs()), f"MPE of row {i} {what}: {g.tolist()}, in the whole batch {full[i].tolist()}")

    for i in alone:
        same([i], net.mpe(net.shape(x[i : i + 1])).reshape(1, *x.shape[1:]), "alone")
    same(perm.tolist(), net.mpe(net.shape(x[perm])).reshape(x.shape), "in a permuted batch")
    same(range(case["cut"], n), net.mpe(net.shape(x[case["cut"]:])).reshape(n - case["cut"], *x.shape[1:]), "in part of the batch")
    # marginalised scopes: the same completion as with missing entries
    if net.kind == "einet" or net.kind == "conv":
        F = cfg["F"]
        g = torch.Generator().manual_seed(case["q"])
        s = torch.randperm(F, generator=g)[: 1 + int(torch.randint(F, (1,), generator=g))].tolist()
        y = gen.random_states(cfg, n, case["q"] ^ 3)
        full = net.mpe(net.shape(y), marginalized_scopes=s).reshape(y.shape)
        clear[:] = True
        for i in alone:
            same([i], net.mpe(net.shape(y[i : i + 1]), marginalized_scopes=s).reshape(1, *y.shape[1:]), f"with marginalized scopes {s} alone", src=y, marginalized_scopes=s)
        l = net.ll(net.shape(y), marginalized_scopes=s).reshape(n, -1)
        for i in alone:
            one = net.ll(net.shape(y[i : i + 1]), marginalized_scopes=s).reshape(-1)
            t.ok(close(one, l[i]), f"log-likelihood of row {i} with marginalized scopes alone {one.tolist()}, in the batch {l[i].tolist()}")


# ------------------------------------------------------------ layouts
LAYOUTS = ["NF", "NCF", "NCHW", "NCWH"]
STRIDES = ["dense", "transposed", "sliced", "expanded", "offset"]
DTYPES = ["float32", "float64", "int64", "int32", "uint8", "float16"]


@st.composite
def st_layout(draw):
    case = draw(st_net(max_F=12))
    case.update(n=draw(st.integers(1, 5)), q=draw(gen.SEED), layouts=draw(st.lists(st.tuples(st.sampled_from(LAYOUTS), st.sampled_from(STRIDES), st.sampled_from(DTYPES)).map(list),
                min_size=2, max_size=6)), p=draw(st.sampled_from([0.0, 0.4])), scopes=draw(st.booleans()), grad=draw(st.integers(0, 4)) == 0)
    return case


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def laid(net, x, lay, stride, dtype):
    """The values of x [N, C, F] in the given layout, strides and dtype (None if not expressible)."""
    cfg = net.cfg
    C, F = cfg["C"], cfg["F"]
    if net.image:
        x = x.reshape(len(x), C, cfg["H"], cfg["W"])
        if lay in ("NF", "NCF") and net.kind == "conv":
            x = x.reshape(len(x), C, F)  # flattened images
    elif lay == "NF":
        if C > 1 or net.kind == "mixture" and C > 1:
            return None
        x = x.reshape(len(x), F)
    elif lay == "NCHW":
        d = divisors(F)
        x = x.reshape(len(x), C, d[len(d) // 2], -1)
    elif lay == "NCWH":
        x = x.reshape(len(x), C, F, 1)
    if dtype != "float32":
        dt = getattr(torch, dtype)
        if not dt.is_floating_point:
            if bool(x.isnan().any()) or not bool((x == x.round()).all()) or bool((x < 0).any()):
                return None
        elif dtype == "float16" and not bool((x.half().float() == x)[~x.isnan()].all()):
            return None
        x = x.to(dt)
    if stride == "transposed":
        x = x.transpose(-1, -2).contiguous().transpose(-1, -2) if x.dim() > 2 else x.t().contiguous().t()
    elif stride == "sliced":
        big = torch.zeros(*x.shape[:-1], 2 * x.shape[-1], dtype=x.dtype)
        big[..., ::2] = x
        x = big[..., ::2]
    elif stride == "expanded":
        x = x[:1].expand(*x.shape)
    elif stride == "offset":
        big = torch.zeros(x.numel() + 7, dtype=x.dtype)
        big[7:] = x.reshape(-1)
        x = big[7:].view(x.shape)
    return x


def run_layout(case, t):
    cfg = case["cfg"]
    net = Net(case)
    lab(case, t)
    mvn = cfg["leaf"]["type"] == "mvn"
    x = gen.random_states(cfg, case["n"], case["q"])
    if gen.domain(cfg)[0] is None and case["q"] % 2:
        x = x.half().float()
    s = None
    if case["p"] and not mvn:
        if case["scopes"]:
            s = torch.randperm(cfg["F"], generator=torch.Generator().manual_seed(case["q"]))[: max(1, cfg["F"] // 2)].tolist()
        else:
            x = holes(x, case["p"], case["q"])
    kw = {} if s is None else {"marginalized_scope" if net.kind == "mixture" else "marginalized_scopes": s}
    kw2 = {} if s is None else {"marginalized_scopes": s}
    used = 0
    for lay, stride, dtype in case["layouts"]:
        base = x[:1].expand(*x.shape).contiguous() if stride == "expanded" else x
        v = laid(net, base, lay, stride, dtype)
        if v is None:
            continue
        used += 1
        t.label(lay, stride, dtype)
        want = net.ll(net.shape(base.contiguous()), **kw).reshape(len(x), -1)
        before, ver = v.clone(), v._version
        got = net.ll(v, **kw).reshape(len(x), -1)
        clear = net.clear(base)
        t.ok(close(got[clear], want[clear]), f"input as {lay} {stride} {dtype}: log-likelihood {got.tolist()}, dense float32 gives {want.tolist()}")

        def intact(what):
            t.ok(v._version == ver and bool(((v == before) | (v.isnan() & before.isnan())).all()), f"the {lay} {stride} {dtype} input of a {what} was modified")

        intact("forward call")
        if net.kind == "einet" and net.heads > 1 and s is None:
            t.ok(close(net.m.posterior(v).detach(), net.m.posterior(base).detach(), loose(net, x)), f"posterior differs for {lay} {stride} {dtype}")
            intact("posterior call")
        if dtype == "float16" or mvn:
            continue
        a = net.mpe(v, **kw2)
        intact("MPE call")
        t.ok(a.shape == v.shape, f"MPE of a {tuple(v.shape)} evidence has shape {tuple(a.shape)}")
        b = net.mpe(net.shape(base.contiguous()), **kw2).reshape(x.shape)
        a = a.reshape(x.shape).float()
        for i in range(len(x)):
            if clear[i] and not torch.allclose(a[i], b[i], atol=1e-4, rtol=1e-5):
                if undecided(net, base[i : i + 1].contiguous(), **kw2):
                    t.label("tie")
                    continue
                ll = torch.logsumexp(net.ll(net.shape(torch.stack([a[i], b[i]]))).reshape(2, -1), 1)
                t.ok(bool((ll[0] - ll[1]).abs() < 1e-3 + 2e-6 * ll[0].abs()), f"MPE of row {i} given as {lay} {stride} {dtype}: {a[i].tolist()}, dense float32 gives {b[i].tolist()}")
    t.nontrivial(busy(case) and used > 1)
    if case["grad"] and not mvn and gen.domain(cfg)[0] is None:
        # an input that requires gradients
        v = net.shape(x.clone()).requires_grad_()
        got = net.m(v, **kw).reshape(len(x), -1)
        t.ok(close(got.detach(), net.ll(net.shape(x), **kw).reshape(len(x), -1)), "an input requiring gradients gives a different log-likelihood")


# ------------------------------------------------------------ very large batches
@st.composite
def st_huge(draw):
    """Layers of up to a few million numbers: many rows, or wide layers."""
    cfg = draw(gen.einet_cfg(kinds=KINDS, max_states=None, min_F=4, max_F=9, max_C=2, max_S=8, max_I=8, max_R=3, max_K=3, discrete=None))
    if draw(st.booleans()):
        cfg["S"] = cfg["I"] = draw(st.sampled_from([4, 8, 12]))
    return {"kind": "einet", "cfg": cfg, "n": draw(st.sampled_from([2**10, 2**12, 2**13, 2**14, 2**15])) + draw(st.integers(-1, 5)), "q": draw(gen.SEED), "p": draw(st.sampled_from([0.0, 0.3])),
            "train": draw(st.booleans())}


def run_huge(case, t):
    """Every row of a very large batch against its value in a small batch."""
    cfg, n = case["cfg"], case["n"]
    cells = max(cfg["F"] * cfg["C"] * cfg["I"], (cfg["F"] + 1) // 2 * cfg["S"] ** 2 * (cfg["S"] if cfg["layer"] == "einsum" else 1)) * cfg["R"]
    n = min(n, 24_000_000 // cells)
    net = Net(case)
    net.m.train(case["train"])
    lab(case, t)
    t.nontrivial(busy(case))
    t.label("2^%d cells" % (n * cells).bit_length())
    x = gen.random_states(cfg, n, case["q"])
    if case["p"]:
        x = holes(x, case["p"], case["q"])
    full = net.ll(x).reshape(n, -1)
    t.ok(full.shape[1] == net.heads, f"likelihood of {n} rows has shape {tuple(full.shape)}")
    step = 509
    small = torch.cat([net.ll(x[i : i + step]).reshape(-1, net.heads) for i in range(0, n, step)])
    bad = [i for i in range(0, n, step) if not close(full[i : i + step], small[i : i + step])]
    t.ok(not bad, lambda: f"log-likelihood of rows {bad[0]} to {bad[0] + step} of {n} differs from that of the same rows in a small batch")
    some = [0, 1, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1]
    one = torch.cat([net.ll(x[i : i + 1]).reshape(1, -1) for i in some])
    t.ok(close(full[some], one), f"log-likelihood of rows {some} of {n} differs from that of the rows alone")
    if net.heads > 1:
        a, b = net.m.posterior(x).detach(), net.m.posterior(x[-300:]).detach()
        t.ok(a.shape == (n, net.heads) and close(a[-300:], b, loose(net, x)), f"posterior of the last rows of {n} differs")
    if case["train"]:
        return
    # completions of the first and last rows
    full = net.mpe(x[: min(n, 6000)])
    t.ok(bool(torch.isfinite(full).all()) and len(full) == min(n, 6000), "MPE completions of a large batch are missing or not finite")
    k = len(full)
    for i in (0, 1, k // 2, k - 2, k - 1):
        a, b = full[i], net.mpe(x[i : i + 1])[0]
        if torch.allclose(a, b, atol=1e-4, rtol=1e-5):
            continue
        if undecided(net, x[i : i + 1]):
            t.label("tie")
            continue
        ll = torch.logsumexp(net.ll(torch.stack([a, b])).reshape(2, -1), 1)
        t.ok(bool((ll[0] - ll[1]).abs() < 1e-3 + 2e-6 * ll[0].abs()), f"MPE of row {i} of {k}: {a.tolist()}, alone {b.tolist()}")


SUBS = [
    Sub("huge", st_huge, run_huge, quick=60, thorough=400, desc="batches of up to tens of thousands of rows against the same rows in small batches"),
    Sub("batches", st_batch, run_batch, quick=900, desc="single rows, splits, permutations and repetitions of a batch: likelihood, posterior, MPE"),
    Sub("layouts", st_layout, run_layout, quick=1200, desc="layouts, strides and dtypes of the same values: likelihood, posterior, MPE, input unmodified"),
]
