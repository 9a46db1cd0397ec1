"""P28: gradients of the log-likelihood are the true derivatives."""
import copy

import torch
from hypothesis import strategies as st

from .. import conv, gen, leaf
from ..core import Sub

RULE = ("A case is a model with generated structure, leaves, parameters, input (with missing values), cotangent and a set of parameter entries. Non-trivial: some sum node has at least two children.")
ASSUMPTIONS = ["numerical derivatives are central differences of a double-precision copy of the model; entries where two step sizes disagree (kinks) are skipped",
               "extreme parameters: finiteness only; weights of einsum layers stay representable in single precision (P04)"]
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal", "mvn")
NAN = float("nan")


@st.composite
def st_model(draw):
    structs = gen.STRUCTS
    cfg = draw(gen.einet_cfg(wide="SIRKC", kinds=ALL, max_states=None, max_F=9, max_C=2, max_S=3, max_I=3, max_R=3, max_K=3, sum_gains=(0.0, 1.0, 1.5), leaf_gains=(0.0, 0.7, 1.0), structs=structs, discrete=None))
    if cfg["leaf"]["type"] == "mvn" and cfg["struct"] == "bottom-up":
        cfg["struct"], cfg["layer"] = draw(st.sampled_from(structs[:3]))
    return {"cfg": cfg, "s": draw(gen.SEED), "n": draw(st.integers(1, 4)), "p": draw(st.sampled_from([0.0, 0.3, 0.8])), "train": draw(st.booleans()),
            "how": draw(st.sampled_from(["plain", "plain", "scopes", "cache", "strided"]))}


def make_twin(m, f, x):
    """A double-precision copy, its input, and the step and relative tolerance of its numerical derivatives."""
    twin = copy.deepcopy(m).double()
    try:
        with torch.no_grad():
            f(twin, x.double())
        return twin, x.double(), 1e-5, 1e-5
    except RuntimeError:  # an operation which only supports single precision
        return copy.deepcopy(m), x, 1e-2, 2e-2


def compare(t, case, m, tw, f, x, named):
    """Autograd of f(model, x) against central differences of the double twin."""
    twin, xd, h, tol = tw
    g = torch.Generator().manual_seed(case["s"])
    out = f(m, x)
    w = torch.randn(out.shape, generator=g)
    params = [(n, p) for n, p in named(m) if p.requires_grad]
    dbl = dict(named(twin))
    val = (out * w).sum()
    t.ok(bool(torch.isfinite(val)), "the log-likelihood is not finite")
    grads = torch.autograd.grad(val, [p for _, p in params], allow_unused=True)
    # differentiation is linear in the loss (a power of two changes no rounding)
    for amp in (2.0**14, 2.0**-14):
        amps = torch.autograd.grad((f(m, x) * w).sum() * amp, [p for _, p in params], allow_unused=True)
        for (name, p), a, b in zip(params, grads, amps):
            t.ok((a is None) == (b is None), f"{name} has a gradient for one loss but not for {amp} times that loss")
            if a is not None:
                t.ok(torch.allclose(b / amp, a, rtol=1e-4, atol=1e-5 * max(1.0, float(a.abs().max()))), lambda: f"gradient of {name} for {amp} times the loss is not {amp} times the gradient (off by {float((b / amp - a).abs().max())})")
    loss = lambda: float((f(twin, xd).double() * w.double()).sum())
    dgrads = torch.autograd.grad((f(twin, xd) * w.to(xd.dtype)).sum(), [dbl[n] for n, _ in params], allow_unused=True)

    def at(p, i, h):
        with torch.no_grad():
            flat = p.view(-1)
            old = flat[i].item()
            vals = []
            for s in (1, -1):
                flat[i] = old + s * h
                vals.append(loss())
            flat[i] = old
        return (vals[0] - vals[1]) / (2 * h)

    for (name, p), a, d in zip(params, grads, dgrads):
        q = dbl[name]
        a = torch.zeros_like(p) if a is None else a
        d = torch.zeros_like(q) if d is None else d
        t.ok(bool(torch.isfinite(a).all()), f"gradient of {name} is not finite")
        scale = max(1.0, float(d.abs().max()), float(w.abs().sum()))
        t.ok(bool(((a.double() - d).abs() <= 2e-3 * scale).all()), f"gradients of {name} in single and double precision differ by {float((a.double() - d).abs().max())}")
        for _ in range(3):
            i = int(torch.randint(p.numel(), (1,), generator=g))
            num, num2 = at(q, i, h), at(q, i, 3 * h)
            if abs(num - num2) > 10 * tol * scale:
                t.label("kink")
                continue
            got = float(d.reshape(-1)[i])
            t.ok(abs(got - num) <= tol * scale, f"gradient of {name}[{i}] is {got}, numerical derivative {num}")
        # one direction through the whole tensor
        v = torch.randn(q.shape, generator=g).to(q.dtype)
        with torch.no_grad():
            vals = []
            old = q.clone()
            for e in (h, -h, 3 * h, -3 * h):
                q.copy_(old + e * v)
                vals.append(loss())
            q.copy_(old)
        num, num2 = (vals[0] - vals[1]) / (2 * h), (vals[2] - vals[3]) / (6 * h)
        vs = scale * (1 + float(v.abs().sum()))
        if abs(num - num2) <= 10 * tol * vs:
            got = float((d * v).sum())
            t.ok(abs(got - num) <= tol * vs, f"directional derivative in {name} is {got} by autograd, {num} numerically")
    return val, w


def run_grad(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg, train=case["train"])
    t.label(*gen.labels(cfg))
    t.label(case["how"])
    t.nontrivial(gen.nontrivial(cfg))
    x = gen.random_states(cfg, case["n"], case["s"])
    g = torch.Generator().manual_seed(case["s"] ^ 5)
    mvn = cfg["leaf"]["type"] == "mvn"
    kw = {}
    if case["how"] == "scopes" and not mvn:
        kw["marginalized_scopes"] = list(range(case["s"] % 2, cfg["F"], 2))
    elif not mvn:
        x = x.masked_fill(torch.rand(x.shape, generator=g) < case["p"], NAN)
    if case["how"] == "cache":
        kw["cache_index"] = None  # caching is not meant for training; the argument is
    if case["how"] == "strided":
        x = x.permute(2, 1, 0).contiguous().permute(2, 1, 0)
    f = lambda mod, inp: mod(inp, **kw)
    tw = make_twin(m, f, x)
    twin, xd, h, tol = tw
    val, w = compare(t, case, m, tw, f, x, lambda mod: mod.named_parameters())
    # inputs of continuous features
    if all(d is None for d in gen.domain(cfg)):
        xi = x.clone().requires_grad_(True)
        (gi,) = torch.autograd.grad((f(m, xi) * w).sum(), xi)
        t.ok(bool(torch.isfinite(gi).all()), "gradient of the input is not finite")
        miss = x.isnan()
        if "marginalized_scopes" in kw:
            miss = torch.zeros_like(miss)
            miss[:, :, kw["marginalized_scopes"]] = True
        t.ok(bool((gi[miss] == 0).all()), "the gradient of a missing input is not zero")
        seen = (~miss).nonzero()
        for _ in range(min(4, len(seen))):
            n, c, k = seen[int(torch.randint(len(seen), (1,), generator=g))].tolist()
            vals = []
            with torch.no_grad():
                for e in (h, -h):
                    y = xd.clone()
                    y[n, c, k] += e
                    vals.append(float((f(twin, y).double() * w.double()).sum()))
            num = (vals[0] - vals[1]) / (2 * h)
            t.ok(abs(float(gi[n, c, k]) - num) <= max(3e-3, tol) * (1 + abs(num) + float(w.abs().sum())), f"gradient of input {(n, c, k)} is {float(gi[n, c, k])}, numerical derivative {num}")
        t.label("input-gradient")
    # backward() through a second graph accumulates exactly the same gradient (nothing is consumed or kept)
    m.zero_grad()
    (f(m, x) * w).sum().backward()
    one = [p.grad.clone() for p in m.parameters() if p.grad is not None]
    (f(m, x) * w).sum().backward()
    two = [p.grad for p in m.parameters() if p.grad is not None]
    t.ok(len(one) == len(two) and all(torch.allclose(b, 2 * a, rtol=1e-4, atol=1e-4) for a, b in zip(one, two)), "a second backward pass does not accumulate the same gradient")
    # a small step against the gradient of the mean negative log-likelihood does not lower the likelihood
    nll = lambda mod: -mod(xd, **kw).mean()
    ps = [p for p in twin.parameters() if p.requires_grad]
    l0 = nll(twin)
    gs = torch.autograd.grad(l0, ps, allow_unused=True)
    sq = sum(float((q**2).sum()) for q in gs if q is not None)
    if sq > 1e-10:
        rate = min(1e-4, 1e-4 / sq**0.5)
        with torch.no_grad():
            for p, q in zip(ps, gs):
                if q is not None:
                    p.sub_(rate * q)
            l1 = nll(twin)
        t.ok(float(l1) <= float(l0) + (1e-9 if xd.dtype == torch.float64 else 1e-5) * (1 + abs(float(l0))), f"a gradient step raised the negative log-likelihood from {float(l0)} to {float(l1)}")


# ------------------------------------------------------------ convolutional circuits
@st.composite
def st_conv(draw):
    return {"cfg": draw(conv.conv_cfg(kinds=ALL[:5], max_cells=36, max_states=None, gains=(0.0, 0.7, 1.0))), "s": draw(gen.SEED), "n": draw(st.integers(1, 3)), "p": draw(st.sampled_from([0.0, 0.3]))}


def run_conv(case, t):
    cfg = case["cfg"]
    m = conv.build(cfg)
    t.label(*conv.labels(cfg))
    t.nontrivial(conv.nontrivial(cfg))
    x = gen.random_states(cfg, case["n"], case["s"])
    x = x.masked_fill(torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"], NAN)
    x = x.view(-1, cfg["C"], cfg["H"], cfg["W"])
    f = lambda mod, inp: mod(inp)
    compare(t, case, m, make_twin(m, f, x), f, x, lambda mod: mod.named_parameters())


# ------------------------------------------------------------ extreme parameters and inputs
@st.composite
def st_extreme(draw):
    case = draw(st_model())
    case["cfg"].update(gs=draw(st.sampled_from([0.0, 8.0, 8.0 if case["cfg"]["layer"] == "einsum" else 60.0])), gl=draw(st.sampled_from([0.0, 3.0, 8.0])))
    case["far"] = draw(st.sampled_from([1.0, 30.0, 1e3]))
    if case["cfg"]["leaf"]["type"] == "mvn":  # ill-conditioned covariances overflow single precision
        case["cfg"]["gl"], case["far"] = min(case["cfg"]["gl"], 1.0), min(case["far"], 30.0)
    return case


def run_extreme(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg, train=case["train"])
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    x = gen.random_states(cfg, case["n"], case["s"])
    for f, d in enumerate(gen.domain(cfg)):
        if d is None:
            x[:, :, f] *= case["far"]
    if cfg["leaf"]["type"] != "mvn":
        x = x.masked_fill(torch.rand(x.shape, generator=torch.Generator().manual_seed(case["s"])) < case["p"], NAN)
    out = m(x)
    if not bool(torch.isfinite(out).all()) or float(out.min()) < -1e9:
        t.reject()
    grads = torch.autograd.grad(out.sum(), [p for p in m.parameters() if p.requires_grad], allow_unused=True)
    names = [n for n, p in m.named_parameters() if p.requires_grad]
    for n, a in zip(names, grads):
        t.ok(a is None or bool(torch.isfinite(a).all()), f"gradient of {n} is not finite although the log-likelihood is")


# ------------------------------------------------------------ every parameter that matters gets a gradient
def run_alive(case, t):
    """All trainable parameters except the sampling-only class root influence the sum of heads of a random input and get a non-zero gradient."""
    cfg = dict(case["cfg"], gs=1.0, gl=0.7)
    m = gen.build(cfg, train=case["train"])
    t.label(*gen.labels(cfg))
    t.nontrivial(gen.nontrivial(cfg))
    x = gen.random_states(cfg, 6, case["s"])
    named = [(n, p) for n, p in m.named_parameters() if p.requires_grad]
    w = torch.randn(6, cfg["K"], generator=torch.Generator().manual_seed(case["s"]))
    grads = torch.autograd.grad((m(x) * w).sum(), [p for _, p in named], allow_unused=True)
    twin, xd, h, _ = make_twin(m, lambda mod, inp: mod(inp), x)
    dbl = dict(twin.named_parameters())
    for (n, p), a in zip(named, grads):
        if a is not None and float(a.abs().max()) > 1e-7:
            continue
        q = dbl[n]
        with torch.no_grad():
            base = (twin(xd) * w).sum()
            v = 0.05 * torch.randn(q.shape, generator=torch.Generator().manual_seed(3)).to(q.dtype)
            q.add_(v)
            moved = float(((twin(xd) * w).sum() - base).abs())
            q.sub_(v)
        t.ok(moved < (1e-5 if h < 1e-4 else 1e-2), f"{n} influences the log-likelihood (by {moved}) but its gradient is {'missing' if a is None else 'zero'}")


# ------------------------------------------------------------ rare components
@st.composite
def st_rare(draw):
    cfg = draw(gen.einet_cfg(wide="SIRK", huge="always" if draw(st.integers(0, 3)) == 0 else True, kinds=ALL[:5], max_states=None, max_F=8, max_C=2, max_S=4, max_I=4, max_R=4, max_K=2,
                             sum_gains=(0.0, 1.0), leaf_gains=(0.0, 0.7), discrete=None))
    return {"cfg": cfg, "s": draw(gen.SEED), "gap": draw(st.sampled_from([4.0, 8.0, 12.0, 16.0, 20.0])), "where": draw(st.sampled_from(["all", "some", "mixing"])), "train": draw(st.booleans()),
            "p": draw(st.sampled_from([0.0, 0.3]))}


def favour(m, case):
    """Favour one random child of (some of the) sum nodes by `gap` logits."""
    g = torch.Generator().manual_seed(case["s"] ^ 0xFA)
    for name, mod in m.named_modules():
        if not name or name.startswith("_class") or not hasattr(mod, "logits") or "leaf" in name:
            continue
        mix = type(mod).__name__ == "MixingLayer"
        if case["where"] == "mixing" and not mix or case["where"] == "some" and bool(torch.randint(2, (1,), generator=g)):
            continue
        w = mod.logits.data
        flat = w.flatten(-2) if type(mod).__name__ == "EinsumLayer" else w if mix else w.movedim(1, -1)
        first = torch.rand(flat.shape, generator=g).argmax(-1, keepdim=True)
        new = flat + case["gap"] * torch.zeros_like(flat).scatter(-1, first, 1.0)
        w.copy_(new.view(w.shape) if type(mod).__name__ in ("EinsumLayer", "MixingLayer") else new.movedim(-1, 1))


def run_rare(case, t):
    """Gradients of components of tiny posterior weight: small, but not zero."""
    cfg = case["cfg"]
    m = gen.build(cfg, train=case["train"])
    favour(m, case)
    t.label(*gen.labels(cfg))
    t.label("gap=%g" % case["gap"], case["where"])
    x = gen.random_states(cfg, 1, case["s"])
    g = torch.Generator().manual_seed(case["s"] ^ 5)
    x = x.masked_fill(torch.rand(x.shape, generator=g) < case["p"], NAN)
    head = case["s"] % cfg["K"]
    f = lambda mod, inp: mod(inp)[0, head]
    twin, xd, h, _ = make_twin(m, f, x)
    if xd.dtype != torch.float64:
        t.reject()
    named = [(n, p) for n, p in m.named_parameters() if p.requires_grad and not n.startswith("_class")]
    dbl = dict(twin.named_parameters())
    one = torch.autograd.grad(f(m, x), [p for _, p in named], allow_unused=True)
    val = f(twin, xd)
    two = torch.autograd.grad(val, [dbl[n] for n, _ in named], allow_unused=True)
    noise = 2e-11 * (1 + abs(float(val)))
    t.nontrivial(gen.nontrivial(cfg))
    for (n, p), a, d in zip(named, one, two):
        q = dbl[n]
        a = torch.zeros_like(q) if a is None else a.double()
        d = torch.zeros_like(q) if d is None else d
        leafy = n.startswith("leaf")
        # single precision follows up to its rounding (posterior weights are differences of numbers around 1)
        if leafy and d.dim() >= 5:
            norm = lambda v: v.square().sum((0, 1, 2)).flatten(2).sum(-1).sqrt() if v.dim() > 5 else v.square().sum((0, 1, 2)).sqrt()
            na, nd = norm(a), norm(d)
            bad = (na - nd).abs() > 0.02 * nd + 2e-6 * (1 + nd.max())
            t.ok(not bool(bad.any()), lambda: f"gradient of {n}: the norm for a component of a repetition is {na[bad][0].item()}, in double precision {nd[bad][0].item()}")
        # double precision against central differences with Richardson extrapolation
        flat = d.reshape(-1).abs()
        zero = (flat < 1e-14).nonzero()[:, 0]
        small = (flat + (flat < 1e-14) * 1e9).argsort()[:3]
        picks = torch.cat([zero[torch.randperm(len(zero), generator=g)[:4]], small, torch.randint(len(flat), (2,), generator=g)]).unique()
        for i in picks.tolist():
            with torch.no_grad():
                w = q.view(-1)
                old = w[i].item()
                vals = {}
                for e in (1e-3, -1e-3, 2e-3, -2e-3):
                    w[i] = old + e
                    vals[e] = float(f(twin, xd))
                w[i] = old
            d1, d2 = (vals[1e-3] - vals[-1e-3]) / 2e-3, (vals[2e-3] - vals[-2e-3]) / 4e-3
            num = (4 * d1 - d2) / 3
            got = float(d.reshape(-1)[i])
            if abs(d1 - d2) > 0.02 * abs(num) + noise:
                t.label("kink")
                continue
            t.label("judged-tiny" if noise * 10 < abs(num) < 1e-5 else "judged")
            t.ok(abs(got - num) <= 0.01 * abs(num) + noise, f"gradient of {n}[{i}] is {got}, numerical derivative {num}")


# ------------------------------------------------------------ leaves against closed-form gradients
@st.composite
def st_leafgrad(draw):
    case = draw(leaf.layer(wide=True, max_n=40))
    case.update(n=draw(st.integers(1, 5)), q=draw(gen.SEED), spread=draw(st.sampled_from([2.0, 0.1, 10.0])), p=draw(st.sampled_from([0.0, 0.4])), gain=draw(st.sampled_from([0.0, 1.0, 3.0, 5.0])))
    if case["leaf"]["type"] == "mvn":
        case["gain"] = min(case["gain"], 1.0)
    return case


def run_leafgrad(case, t):
    spec = case["leaf"]
    m = leaf.make(case)
    mvn = spec["type"] == "mvn"
    x = leaf.random_x(case, case["n"], case["q"], case["spread"])
    g = torch.Generator().manual_seed(case["q"] ^ 77)
    miss = torch.rand(x.shape, generator=g) < (0.0 if mvn else case["p"])
    t.label("leaf=" + spec["type"], "gain=%g" % case["gain"])
    t.nontrivial(case["F"] * case["C"] * case["L"] * case["R"] > 1)
    cont = gen.leaf_values(spec) is None
    xi = x.masked_fill(miss, NAN).requires_grad_(cont)
    got = m(xi, None)
    xr = x.double().requires_grad_(cont)
    ref = leaf.log_prob(spec, leaf.ref_params(spec, m, grad=True), xr)
    if not mvn:
        ref = ref * (~miss)[..., None, None]
    names = [n for n, p in m.named_parameters() if p.requires_grad]
    params = [p for p in m.parameters() if p.requires_grad]
    P = leaf.ref_params(spec, m)
    # cells whose closed form single precision can follow
    if "logit" in P:
        ok = P["logit"].abs() <= 8
    elif mvn:
        ok = torch.linalg.cond(P["tril"]) < 100
    elif "sigma" in P:
        ok = P["sigma"] > 1e-3
    else:
        ok = torch.ones(got.shape[1:], dtype=torch.bool)
    w = torch.randn(got.shape, generator=g) * ok
    a = torch.autograd.grad((got * w).sum(), params + ([xi] if cont else []), allow_unused=True)
    b = torch.autograd.grad((ref * w.double()).sum(), params + ([xr] if cont else []), allow_unused=True)
    for n, p, u, v in zip(names + ["the input"], params + [xi], a, b):
        u = torch.zeros_like(p) if u is None else u
        v = torch.zeros_like(p) if v is None else v
        t.ok(bool(torch.isfinite(u).all()), f"gradient of {n} is not finite")
        u, v = u.double(), v.double()
        if n == "the input" and not mvn:
            t.ok(bool((u[miss] == 0).all()), "the gradient of a missing input is not zero")
        # rows of opposite sign may cancel: compare with the size of the summands
        size = 1.0 + v.abs()
        if "sigma" in P and not mvn:
            z = ((x.double().abs()[..., None, None] + P["mu"].abs()) / P["sigma"])[:, :, :]
            amp = (w.abs() * (z + 1) ** 2 / P["sigma"].clamp(max=1.0) * ok)
            size = size + (amp.sum((3, 4)) if n == "the input" else amp.sum(0)[None] if u.dim() == 5 else amp.sum())
        elif mvn:
            size = size + v.abs().max() * 10
        else:
            size = size + w.abs().sum() * spec.get("n", 1) * 0.05
        err = (u - v).abs()
        bad = ~(err <= 2e-4 * size)
        t.ok(not bool(bad.any()), lambda: f"{spec['type']}: gradient of {n} is {u[bad][0].item()}, that of the closed form {v[bad][0].item()}")


# ------------------------------------------------------------ batches
@st.composite
def st_batch(draw):
    case = draw(st_model())
    case.update(n=draw(st.one_of(st.integers(2, 12), st.sampled_from([33, 65, 100, 129, 257, 300, 520, 1030]))), cut=draw(st.floats(0.0, 1.0)))
    return case


def run_batch(case, t):
    """The gradient of a sum over rows is the sum of the gradients over any split of the rows."""
    cfg, n = case["cfg"], case["n"]
    m = gen.build(cfg, train=case["train"])
    t.label(*gen.labels(cfg))
    t.label("n>64" if n > 64 else "n<=64")
    t.nontrivial(gen.nontrivial(cfg))
    x = gen.random_states(cfg, n, case["s"])
    g = torch.Generator().manual_seed(case["s"] ^ 5)
    if cfg["leaf"]["type"] != "mvn":
        x = x.masked_fill(torch.rand(x.shape, generator=g) < case["p"], NAN)
    w = torch.randn(n, cfg["K"], generator=g).abs() + 0.1
    cut = min(n - 1, max(1, int(case["cut"] * n)))
    order = torch.randperm(n, generator=g)
    named = [(k, p) for k, p in m.named_parameters() if p.requires_grad]
    grads = lambda i: torch.autograd.grad((m(x[i]).reshape(len(i), -1) * w[i]).sum(), [p for _, p in named], allow_unused=True)
    full, one, two = grads(torch.arange(n)), grads(order[:cut]), grads(order[cut:])
    for (name, p), a, b, c in zip(named, full, one, two):
        t.ok((a is None) == (b is None) == (c is None), f"{name} has a gradient for some rows only")
        if a is not None:
            tol = 2e-4 * float(b.abs().max() + c.abs().max()) + 3e-5 * float(w.sum()) ** 0.5
            t.ok(bool(((a - b - c).abs() <= tol).all()), lambda: f"gradient of {name} for {n} rows is not the sum of those for {cut} and {n - cut} of them (off by {float((a - b - c).abs().max())})")


SUBS = [
    Sub("grad", st_model, run_grad, quick=700, desc="gradients of parameters and inputs against central differences of a double-precision copy; missing inputs; accumulation; descent"),
    Sub("leaf", st_leafgrad, run_leafgrad, quick=1500, desc="gradients of leaf log-densities against those of the closed forms in double precision, also for extreme parameters"),
    Sub("batch", st_batch, run_batch, quick=500, desc="gradients of batches of up to a thousand rows against the sum over any two-part split of them"),
    Sub("conv", st_conv, run_conv, quick=250, desc="the same for convolutional circuits"),
    Sub("extreme", st_extreme, run_extreme, quick=1000, desc="finite gradients for extreme parameters and inputs"),
    Sub("rare", st_rare, run_rare, quick=500, desc="gradients of components of tiny posterior weight, in models with layers of up to hundreds of components"),
    Sub("alive", st_model, run_alive, quick=600, desc="no parameter that influences the likelihood is without gradient"),
]
