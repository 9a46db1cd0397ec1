"""P24: convolutional circuits are normalised and marginalise exactly."""
import torch
from hypothesis import strategies as st
from torch import nn

from .. import conv, gen
from ..core import Sub

RULE = ("A case is a ConvPc configuration (structure, order, kernel size, channel list, image shape, leaf), seeded parameters and a "
        "missing pattern. Non-trivial: some layer has more than one channel and there is more than one pixel.")
ASSUMPTIONS = ["image sides are divisible as the structure requires (kernel_size^(levels-1) bottom-up, 2^levels top-down)"]
NAN = float("nan")


def run_enum(case, t):
    cfg = case["cfg"]
    m = conv.Flat(cfg, conv.build(cfg))
    t.label(*conv.labels(cfg))
    t.nontrivial(conv.nontrivial(cfg))
    x = gen.all_states(cfg)
    ll = gen.forward_chunks(m, x).double()[:, 0]
    t.ok(ll.shape == (len(x),) and not bool(torch.isnan(ll).any()), "log-likelihood shape or NaN")
    tot = ll.exp().sum().item()
    t.ok(abs(tot - 1) < 1e-3, f"sum over all {len(x)} images: {tot}")
    # marginal: every row of a random query with its own missing pattern
    n = 4
    q = gen.random_states(cfg, n, case["xseed"])
    mask = torch.rand(q.shape, generator=torch.Generator().manual_seed(case["xseed"])) < case["p"]
    got = gen.forward_chunks(m, q.masked_fill(mask, NAN)).double()[:, 0]
    for i in range(n):
        sel = ((x == q[i]) | mask[i]).flatten(1).all(1)
        want = torch.logsumexp(ll[sel], 0)
        t.ok(bool((got[i] - want).abs() < 1e-3 + 1e-5 * want.abs()),
             f"image with missing pixels {mask[i].long().tolist()}: log-likelihood {got[i].item()}, sum over completions {want.item()}")


@st.composite
def st_enum(draw):
    return {"cfg": draw(conv.conv_cfg(max_cells=12)), "xseed": draw(gen.SEED), "p": draw(st.sampled_from([0.2, 0.5, 0.8, 1.0]))}


@st.composite
def st_flow(draw):
    cfg = draw(conv.conv_cfg(max_cells=None, max_states=None, max_ch=5, max_L=4, max_C=3))
    return {"cfg": cfg, "tseed": draw(gen.SEED), "spread": draw(st.sampled_from([0.5, 3.0, 15.0])), "f": draw(st.integers(0, cfg["F"] - 1)),
            "c": draw(st.integers(0, cfg["C"] - 1)), "delta": draw(st.sampled_from([-300.0, 1.0, 40.0]))}


def run_flow(case, t):
    from .p03 import table_leaf

    cfg = case["cfg"]
    cls = table_leaf()
    m = conv.build(cfg, leaf_type=cls)
    leaf = [q for q in m.modules() if isinstance(q, cls)][0]
    g = torch.Generator().manual_seed(case["tseed"])
    N = 2
    tab = case["spread"] * torch.randn(N, cfg["C"], cfg["F"], cfg["channels"][0], 1, generator=g)
    tab.requires_grad_(True)
    leaf.table = tab
    x = torch.zeros(N, cfg["C"], cfg["H"], cfg["W"])
    out = m(x)
    t.label(*conv.labels(cfg))
    t.nontrivial(conv.nontrivial(cfg))
    t.ok(out.shape == (N,) and bool(torch.isfinite(out).all()), f"output {out.tolist()}")
    (gr,) = torch.autograd.grad(out.sum(), tab)
    t.ok(bool((gr >= -1e-5).all()), "negative sensitivity")
    flow = gr.sum(dim=(3, 4))
    t.ok(bool(((flow - 1).abs() < 3e-3).all()),
         f"total sensitivity to a pixel is {flow.flatten()[(flow - 1).abs().flatten().argmax()].item()}, expected 1")
    with torch.no_grad():
        leaf.table = tab.detach().clone()
        leaf.table[:, case["c"], case["f"]] += case["delta"]
        got = m(x)
    want = out.detach() + case["delta"]
    t.ok(bool(((got - want).abs() < 1e-3 + 3e-5 * (want.abs() + out.abs())).all()), f"shifting one pixel by {case['delta']} moves the output by {(got - out).tolist()}")


@st.composite
def st_missing(draw):
    cfg = draw(conv.conv_cfg(max_cells=None, max_states=None, max_ch=5, max_L=4, max_C=3,
                             kinds=("bernoulli", "categorical", "binomial", "normal", "ratnormal")))
    return {"cfg": cfg, "xseed": draw(gen.SEED), "p": draw(st.sampled_from([0.0, 0.5, 0.9])), "f": draw(st.integers(0, cfg["F"] - 1)),
            "c": draw(st.integers(0, cfg["C"] - 1)), "flat": draw(st.booleans())}


def run_missing(case, t):
    """Larger images: everything missing gives zero; one more missing pixel equals the sum/integral over that pixel."""
    cfg = case["cfg"]
    raw = conv.build(cfg)
    m = conv.Flat(cfg, raw)
    t.label(*conv.labels(cfg))
    t.nontrivial(conv.nontrivial(cfg))
    z = m(torch.full((2, cfg["C"], cfg["F"]), NAN))
    t.ok(bool(z.abs().max() < 2e-3), f"log-likelihood of a completely missing image: {z.flatten().tolist()}")
    x = gen.random_states(cfg, 1, case["xseed"])
    mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["xseed"])) < case["p"]
    x = x.masked_fill(mask, NAN)
    c, f = case["c"], case["f"]
    miss = x.clone()
    miss[:, c, f] = NAN
    got = m(miss).double().item()
    dom = gen.domain(cfg)[f]
    if dom is None:
        from .p01 import quad_axis

        a, lw = quad_axis(0.03, 5.3)
        rows = miss.expand(len(a), -1, -1).clone()
        rows[:, c, f] = a
        want = torch.logsumexp(gen.forward_chunks(m, rows)[:, 0].double() + lw, 0).item()
    else:
        rows = miss.expand(len(dom), -1, -1).clone()
        rows[:, c, f] = torch.tensor(dom, dtype=torch.float32)
        want = torch.logsumexp(gen.forward_chunks(m, rows)[:, 0].double(), 0).item()
    t.ok(abs(got - want) < 3e-3 + 2e-5 * abs(want), f"pixel (c={c}, f={f}) missing: {got}, summed out: {want}")
    # pixels named in marginalized_scopes, alone and together with NaN pixels
    sc = [f] + [(f + 2) % cfg["F"]] * (cfg["F"] > 2 and case["flat"])
    named = x.clone()
    named[:, :, sc] = NAN
    a = m(named)
    for what, v in (("NaN elsewhere", x), ("no NaN", x.nan_to_num(nan=0.0)), ("tensor", x)):
        ref = a
        if what == "no NaN":
            v = gen.random_states(cfg, 1, case["xseed"] + 1)
            ref = v.clone()
            ref[:, :, sc] = NAN
            ref = m(ref)
        got = raw(m.img(v), marginalized_scopes=torch.tensor(sc) if what == "tensor" else list(sc)).view(-1, 1)
        t.ok(torch.allclose(got, ref, atol=1e-4, rtol=1e-5), f"marginalized_scopes={sc} ({what}): {got.tolist()}, the same pixels as NaN give {ref.tolist()}")
    if case["flat"]:  # the documented layouts of an image give the same result
        flat = raw(miss.view(1, cfg["C"], -1))
        t.ok(torch.equal(flat.flatten(), m(miss).flatten()), "flattened and image-shaped inputs differ")


class _Free(nn.Module):
    pass


@st.composite
def st_layers(draw):
    k = draw(st.integers(1, 3))
    return {"ci": draw(st.integers(1, 4)), "co": draw(st.integers(1, 4)), "k": k, "kw": draw(st.integers(1, 3)), "h": draw(st.integers(1, 3)),
            "w": draw(st.integers(1, 3)), "n": draw(st.integers(1, 3)), "seed": draw(gen.SEED), "gain": draw(st.sampled_from([0.0, 1.0, 5.0])),
            "mag": draw(st.sampled_from([1.0, 30.0, 1000.0])), "order": draw(st.sampled_from(["sum-prod", "prod-sum"]))}


def run_layers(case, t):
    """Each layer against a float64 loop over pixels."""
    from simple_einet.conv_pc import ProdConv, SumConv, SumLayer, SumProdLayer

    gen.seed_all(case["seed"])
    ci, co, k, kw, n = case["ci"], case["co"], case["k"], case["kw"], case["n"]
    t.nontrivial(ci > 1 and k * kw > 1)

    def noise(mod):
        gen.perturb(mod, case["seed"], case["gain"], case["gain"])
        return mod

    def ref_sum(x, logits, at):
        w = torch.log_softmax(logits.double(), 1)
        out = torch.empty(x.shape[0], logits.shape[0], *x.shape[2:], dtype=torch.float64)
        for i in range(x.shape[2]):
            for j in range(x.shape[3]):
                out[:, :, i, j] = torch.logsumexp(w[None, :, :, at(i, logits.shape[2]), at(j, logits.shape[3])] + x[:, None, :, i, j].double(), 2)
        return out

    def ref_prod(x, kh, kw_):
        out = torch.zeros(x.shape[0], x.shape[1], x.shape[2] // kh, x.shape[3] // kw_, dtype=torch.float64)
        for i in range(x.shape[2]):
            for j in range(x.shape[3]):
                out[:, :, i // kh, j // kw_] += x[:, :, i, j].double()
        return out

    def close(got, want, what):
        t.ok(got.shape == want.shape, f"{what}: shape {tuple(got.shape)}, expected {tuple(want.shape)}")
        t.ok(bool(((got.double() - want).abs() <= 1e-4 + 1e-5 * want.abs()).all()), f"{what}: {got.flatten()[:4].tolist()}, expected {want.flatten()[:4].tolist()}")

    H, W = case["h"] * k, case["w"] * kw
    x = -case["mag"] * torch.rand(n, ci, H, W)
    with torch.no_grad():
        s = noise(SumLayer(ci, co, H, W))
        close(s(x), ref_sum(x, s.logits, lambda i, m: i), "SumLayer")
        close(ProdConv(k, kw)(x), ref_prod(x, k, kw), "ProdConv")
        sp = noise(SumProdLayer(ci, co, H, W, k, kw, order=case["order"]))
        if case["order"] == "sum-prod":
            want = ref_prod(ref_sum(x, sp.sum_layer.logits, lambda i, m: i), k, kw)
        else:
            want = ref_sum(ref_prod(x, k, kw), sp.sum_layer.logits, lambda i, m: i)
        close(sp(x), want, "SumProdLayer " + case["order"])
        y = -case["mag"] * torch.rand(n, ci, case["h"] * k, case["w"] * k)
        sc = noise(SumConv(ci, co, k))
        close(sc(y), ref_sum(y, sc.logits, lambda i, m: i % m), "SumConv")


SUBS = [
    Sub("enumerate", st_enum, run_enum, quick=300, desc="discrete leaves: sum over all images, marginals by summation"),
    Sub("flow", st_flow, run_flow, quick=300, desc="free leaf log-densities: sensitivities to each pixel sum to one; shifts"),
    Sub("missing", st_missing, run_missing, quick=300, desc="larger images: completely missing, one pixel summed or integrated out"),
    Sub("layers", st_layers, run_layers, quick=300, desc="sum and product layers against float64 loops"),
]
