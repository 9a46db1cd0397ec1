"""P04: inner layers compute their weighted sums and products exactly and stably."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.special import log_softmax, logsumexp

from .. import gen
from ..core import Sub

RULE = ("A case is a layer (type, feature count, input and output widths, repetitions), seeded weights and a seeded tensor "
        "of log-densities of a drawn magnitude, spread and share of zero-probability entries. Non-trivial: at least two "
        "children per sum (products: at least two factors).")
ASSUMPTIONS = ["references are evaluated in float64 from the layers' definitions and compared at float32 accuracy",
               "the weights of einsum layers stay within the range float32 can represent as probabilities"]
KINDS = ["linsum", "linsum2", "einsum", "sum", "mixing", "rootproduct", "product", "crossproduct"]


@st.composite
def st_case(draw):
    kind = draw(st.sampled_from(KINDS))
    D = draw(st.integers(1, 9))
    if kind == "einsum":
        D = 2 * draw(st.integers(1, 5))
    if kind in ("linsum", "linsum2", "crossproduct"):
        D = draw(st.integers(2, 11))  # a single region has nothing to be multiplied with
    top = 24 if kind in ("einsum", "crossproduct") else 64
    case = {
        "kind": kind, "D": D, "Sin": draw(st.integers(1, 5)), "Sout": draw(st.integers(1, 5)), "R": draw(st.integers(1, 4)),
        "N": draw(st.integers(1, 4)), "seed": draw(gen.SEED), "gain": draw(st.sampled_from([0.0, 1.0, 3.0, 8.0] + ([25.0] if kind != "einsum" else []))),
        "center": draw(st.sampled_from([0.0, -1.0, -50.0, -1000.0, -2e4, 30.0, 3000.0])),
        "spread": draw(st.sampled_from([0.0, 1.0, 30.0, 300.0, 5000.0])),
        "zero": draw(st.sampled_from([0.0, 0.0, 0.3, 0.8])), "shift": draw(st.sampled_from([-700.0, -3.0, 2.0, 150.0])),
        "card": draw(st.integers(1, 4)),
    }
    gen.widen(draw, case, {"Sin": (9, top), "Sout": (9, min(top, 40)), "R": (6, 24), "D": (12, 70), "N": (65, 300)})
    case["D"] += kind == "einsum" and case["D"] % 2
    return case


def make(case):
    from simple_einet.layers.einsum import EinsumLayer
    from simple_einet.layers.linsum import LinsumLayer, LinsumLayer2
    from simple_einet.layers.mixing import MixingLayer
    from simple_einet.layers.product import CrossProductLayer, ProductLayer, RootProductLayer
    from simple_einet.layers.sum import SumLayer

    D, Sin, Sout, R = case["D"], case["Sin"], case["Sout"], case["R"]
    gen.seed_all(case["seed"])
    k = case["kind"]
    if k == "linsum":
        l = LinsumLayer(num_features=D, num_sums_in=Sin, num_sums_out=Sout, num_repetitions=R)
    elif k == "linsum2":
        l = LinsumLayer2(num_features=D, num_sums_in=Sin, num_sums_out=Sout, num_repetitions=R)
    elif k == "einsum":
        l = EinsumLayer(num_features=D, num_sums_in=Sin, num_sums_out=Sout, num_repetitions=R)
    elif k == "sum":
        l = SumLayer(num_sums_in=Sin, num_features=D, num_sums_out=Sout, num_repetitions=R)
    elif k == "mixing":
        l = MixingLayer(num_features=D, num_sums_in=R, num_sums_out=Sin)
    elif k == "rootproduct":
        l = RootProductLayer(num_features=D, num_repetitions=R)
    elif k == "product":
        l = ProductLayer(in_features=D, cardinality=min(case["card"], D), num_repetitions=R)
    else:
        l = CrossProductLayer(in_features=D, in_channels=Sin, num_repetitions=R)
    g = torch.Generator().manual_seed(case["seed"] ^ 77)
    l.eval()
    for on in (False, True):  # used before its weights are set
        with torch.set_grad_enabled(on):
            if case["seed"] % 5 == 0:
                l(torch.zeros(2, D, 1 if k == "rootproduct" else Sin, R))
    with torch.no_grad():
        for p in l.parameters():
            if p.requires_grad:
                new = p + case["gain"] * torch.randn(p.shape, generator=g)
                if case["seed"] % 2:
                    p.copy_(new)
                else:
                    p.data = new
    return l


def pair(x, fill=0.0):
    """Left and right children of each binary product; an absent right child has log-density 0."""
    if x.shape[1] % 2:
        x = np.concatenate([x, np.full_like(x[:, :1], fill)], 1)
    return x[:, 0::2], x[:, 1::2]


def reference(case, layer, x):
    k = case["kind"]
    x = x.astype(np.float64)
    with np.errstate(all="ignore"):
        if k == "rootproduct":
            return x.sum(1, keepdims=True)
        if k == "product":
            c = min(case["card"], case["D"])
            pad = (-x.shape[1]) % c
            x = np.concatenate([x, np.zeros((x.shape[0], pad) + x.shape[2:])], 1)
            return x.reshape(x.shape[0], -1, c, *x.shape[2:]).sum(2)
        if k == "crossproduct":
            l, r = pair(x)
            o = l[:, :, :, None] + r[:, :, None]
            return o.reshape(o.shape[0], o.shape[1], -1, o.shape[-1])
        W = layer.logits.detach().double().numpy()
        if k == "linsum":
            l, r = pair(x)
            return logsumexp((l + r)[:, :, :, None] + log_softmax(W, axis=1)[None], axis=2)
        if k == "linsum2":
            s = logsumexp(x[:, :, :, None] + log_softmax(W, axis=1)[None], axis=2)
            l, r = pair(s)
            return l + r
        if k == "sum":
            return logsumexp(x[:, :, :, None] + log_softmax(W, axis=1)[None], axis=2)
        if k == "mixing":
            return logsumexp(x + log_softmax(W, axis=2)[None], axis=3)
        if k == "einsum":  # logits [D/2, Sout, R, Sin, Sin]
            l, r = pair(x)
            S = W.shape
            w = log_softmax(W.reshape(S[0], S[1], S[2], -1), axis=-1).reshape(S)
            z = l[:, :, None, :, None, :] + r[:, :, None, None, :, :]  # n d 1 i j r
            z = np.moveaxis(z, -1, 3)  # n d 1 r i j
            z = z + w[None]
            return logsumexp(z.reshape(*z.shape[:4], -1), axis=-1)


def run(case, t):
    layer = make(case)
    g = torch.Generator().manual_seed(case["seed"] ^ 991)
    shape = (case["N"], case["D"], case["Sin"], case["R"])
    x = case["center"] + case["spread"] * torch.randn(shape, generator=g)
    x[torch.rand(shape, generator=g) < case["zero"]] = -float("inf")
    keep = x.clone()
    with torch.no_grad():
        out = layer(x)
    want = torch.from_numpy(np.ascontiguousarray(reference(case, layer, keep.numpy())))
    t.label(case["kind"], "odd" if case["D"] % 2 else "even", "zeros" if case["zero"] else "positive")
    t.nontrivial(case["D"] > 1 if "product" in case["kind"] else (case["R"] if case["kind"] == "mixing" else case["Sin"]) > 1)
    t.ok(torch.equal(x, keep), "the layer modified its input")
    t.ok(tuple(out.shape) == tuple(want.shape), f"shape {tuple(out.shape)}, expected {tuple(want.shape)}")
    scale = keep[torch.isfinite(keep)].abs().max().item() if torch.isfinite(keep).any() else 0.0
    tol = 2e-4 + 4e-7 * scale * max(4, case["D"] if case["kind"] == "rootproduct" else case["card"] + 2)
    o = out.double()
    t.ok(not bool(torch.isnan(o).any()), f"NaN output; expected {want[torch.isnan(o)][:3].tolist()}")
    inf = torch.isinf(want)
    t.ok(bool((o[inf] == want[inf]).all()), f"zero-probability outputs differ: {o[inf][:4].tolist()}")
    d = (o - want)[~inf].abs()
    t.ok(d.numel() == 0 or bool(d.max() <= tol), f"off by {d.max().item() if d.numel() else 0} (tolerance {tol})")
    # adding a constant to all inputs of one region (feature) shifts exactly the output region above it
    f = case["seed"] % case["D"]
    y = keep.clone()
    y[:, f] += case["shift"]
    with torch.no_grad():
        o2 = layer(y).double()
    k = case["kind"]
    of = {"rootproduct": 0, "sum": f, "mixing": f, "product": f // min(case["card"], case["D"])}.get(k, f // 2)
    want2 = o.clone()
    want2[:, of] += case["shift"]
    d = (o2 - want2)[torch.isfinite(want2)].abs()
    t.ok(d.numel() == 0 or bool(d.max() <= 2 * tol + 1e-6 * abs(case["shift"])),
         f"shifting region {f} by {case['shift']} moves the outputs wrongly by up to {d.max().item() if d.numel() else 0}")


SUBS = [Sub("layers", st_case, run, quick=2500, desc="each inner layer against its definition in float64")]
