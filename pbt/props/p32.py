"""P32: differentiable categorical sampling yields exact one-hots with sound gradients."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, stats
from ..core import Sub

RULE = ("A case is a tensor of logits or normalised log-weights (rank, shape, dimension counted from either end, data type, memory layout, magnitude) and a sampling method, or a tensor with a one-hot index. "
        "Non-trivial: the sampled or indexed dimension has at least two entries.")
ASSUMPTIONS = ["one-hots are exact up to the rounding of the straight-through sum (1e-6)",
               "ties may be resolved either way",
               "statistical tests: a violation needs p < 1e-6 twice, on independent samples",
               "indexing is by multiplication, so indexed tensors are finite"]


@st.composite
def st_tensor(draw, max_rank=5, max_size=5):
    shape = draw(st.lists(st.integers(1, max_size), min_size=1, max_size=max_rank))
    dim = draw(st.integers(0, len(shape) - 1))
    if draw(st.integers(0, 3)) > 0:
        shape[dim] = max(2, shape[dim])
    if draw(st.integers(0, 9)) == 9:
        shape[dim] = draw(st.integers(9, 120))
    return {"shape": shape, "dim": dim - draw(st.sampled_from([0, len(shape)])), "gain": draw(st.sampled_from([0.0, 0.3, 1.0, 3.0, 30.0, 1e4])), "shift": draw(st.sampled_from([0.0, 0.0, -200.0, 1e4])),
            "f64": draw(st.integers(0, 3)) == 0, "strided": draw(st.booleans()), "s": draw(gen.SEED)}


def tensor(c):
    g = torch.Generator().manual_seed(c["s"])
    x = c["gain"] * torch.randn(*c["shape"], generator=g, dtype=torch.float64) + c["shift"]
    x = x if c["f64"] else x.float()
    if c["strided"]:
        x = x.permute(*reversed(range(x.dim()))).contiguous().permute(*reversed(range(x.dim())))
    return x


@st.composite
def st_sample(draw):
    c = draw(st_tensor())
    return {**c, "method": draw(st.sampled_from(["SIMPLE", "SIMPLE", "GUMBEL"])), "mpe": draw(st.booleans()), "weights": draw(st.booleans()), "hard": draw(st.booleans()), "tau": draw(st.sampled_from([1.0, 1.0, 0.2, 3.0, 0.02, 30.0])),
            "direct": draw(st.booleans()), "neginf": draw(st.integers(0, 5)) == 0}


def call(c, x, key):
    from simple_einet.sampling_utils import SIMPLE, DiffSampleMethod, sample_categorical_differentiably

    if c["method"] == "SIMPLE" and c["direct"]:
        return SIMPLE(**{key: x}, dim=c["dim"], is_mpe=c["mpe"])
    return sample_categorical_differentiably(dim=c["dim"], is_mpe=c["mpe"], hard=c["hard"], tau=c["tau"], method=DiffSampleMethod[c["method"]], **{key: x})


def run_sample(c, t):
    x = tensor(c)
    d = c["dim"]
    n = x.shape[d]
    key = "logits"
    if c["neginf"] and n > 1 and c["gain"] < 100:  # zero-probability entries: every other one
        sel = [slice(None)] * x.dim()
        sel[d % x.dim()] = slice(1, None, 2)
        x[tuple(sel)] = -math.inf
    if c["weights"]:
        key, x = "log_weights", torch.log_softmax(x, d)
    keep = x.clone()
    x.requires_grad_()
    t.label(c["method"], key, "mpe" if c["mpe"] else "sample", "rank=%d" % x.dim(), "dim<0" if d < 0 else "dim>=0", "size=%d" % n)
    t.nontrivial(n > 1)
    gen.seed_all(c["s"])
    y = call(c, x, key)
    t.ok(torch.equal(x.detach(), keep), "the input was modified")
    t.ok(y.shape == x.shape and y.is_floating_point(), f"result {tuple(y.shape)} of {tuple(x.shape)}")
    v = y.detach().double()
    t.ok(bool(torch.isfinite(v).all()), "result is not finite")
    onehot = c["method"] == "SIMPLE" or c["mpe"] or c["hard"]
    if onehot:
        r = v.round()
        t.ok(bool(((v - r).abs() < 1e-6).all()) and bool(((r == 0) | (r == 1)).all()) and bool((r.sum(d) == 1).all()), f"not one-hot along dimension {d}: {v.tolist()}")
    else:
        t.ok(bool((v >= 0).all()) and torch.allclose(v.sum(d), torch.ones(()).double(), atol=1e-5), "soft sample is no distribution")
    chosen = keep.gather(d % x.dim(), v.argmax(d, keepdim=True))
    t.ok(bool((chosen > -math.inf).all()), "an entry of probability zero was chosen")
    if c["mpe"]:
        t.ok(torch.equal(chosen, keep.amax(d, keepdim=True)), "MPE is not the most probable entry")
        t.ok(torch.equal(call(c, x, key).detach(), y.detach()), "MPE is not deterministic")
    # gradient
    t.ok(y.requires_grad, "the sample is not connected to the parameters")
    w = torch.randn(y.shape, generator=torch.Generator().manual_seed(c["s"] + 1)).to(y.dtype)
    (got,) = torch.autograd.grad((y * w).sum(), x)
    if c["neginf"]:
        fin = keep > -math.inf
    else:
        fin = torch.ones_like(keep, dtype=torch.bool)
    t.ok(bool(torch.isfinite(got[fin]).all()), "gradient is not finite")
    if c["method"] == "SIMPLE" or c["mpe"]:
        z = keep.double().requires_grad_()
        p = z.exp() if c["weights"] and c["method"] == "SIMPLE" else torch.softmax(z, d)
        (want,) = torch.autograd.grad((p * w.double()).sum(), z)
        t.ok(bool(((got.double() - want).abs()[fin] <= 1e-5 * (1 + want.abs()[fin]) * n).all()), "gradient is not that of the probabilities")
    else:  # relaxed sample softmax((logits + noise) / tau): its derivative is known from its value
        if c["hard"]:
            gen.seed_all(c["s"])
            v = call({**c, "hard": False}, x, key).detach().double()
        want = v * (w.double() - (v * w.double()).sum(d, keepdim=True)) / c["tau"]
        t.ok(bool(((got.double() - want).abs()[fin] <= 1e-5 * n * (1 + want.abs()[fin] + 1 / c["tau"])).all()), f"gradient is not that of a sample at temperature {c['tau']}")


def run_invalid(c, t):
    """Exactly one of logits / log-weights must be given."""
    from simple_einet.sampling_utils import SIMPLE, DiffSampleMethod, sample_categorical_differentiably

    x = tensor(c)
    t.nontrivial(True)
    for kw in ({}, {"logits": x, "log_weights": torch.log_softmax(x, c["dim"])}):
        for f in (lambda: SIMPLE(dim=c["dim"], **kw), lambda: sample_categorical_differentiably(dim=c["dim"], is_mpe=True, hard=True, tau=1.0, **kw),
                  lambda: sample_categorical_differentiably(dim=c["dim"], is_mpe=False, hard=True, tau=1.0, method=DiffSampleMethod.GUMBEL, **kw)):
            try:
                f()
            except AssertionError:
                continue
            t.fail("ambiguous parameters were accepted")


# ------------------------------------------------------------ distribution
@st.composite
def st_dist(draw):
    return {"n": draw(st.integers(2, 7) | st.integers(8, 40)), "pre": draw(st.integers(1, 2)), "post": draw(st.integers(1, 2)), "gain": draw(st.sampled_from([0.0, 1.0, 3.0, 6.0])), "shift": draw(st.sampled_from([0.0, -50.0, 80.0])),
            "where": draw(st.integers(0, 2)), "s": draw(gen.SEED), "method": draw(st.sampled_from(["SIMPLE", "SIMPLE", "GUMBEL"])), "weights": draw(st.booleans()), "hard": draw(st.booleans()), "tau": draw(st.sampled_from([1.0, 0.3, 2.0])),
            "mpe": False, "direct": draw(st.booleans()), "f64": draw(st.booleans())}


def run_dist(c, t):
    g = torch.Generator().manual_seed(c["s"])
    lg = c["gain"] * torch.randn(c["pre"] * c["post"], c["n"], generator=g) + c["shift"]
    if c["f64"]:
        lg = lg.double()
    key = "logits"
    if c["weights"]:
        key, lg = "log_weights", torch.log_softmax(lg, 1)
    probs = torch.softmax(lg.double(), 1)
    t.label(c["method"], key, "n=%d" % c["n"])
    t.nontrivial(True)
    two = len(lg) > 1
    joint = (probs[0][:, None] * probs[-1][None, :]).flatten() if two else probs[0]
    dim = (0, 1, 3)[c["where"]]

    def counts(num, seed):
        x = lg.view(1, c["pre"], c["post"], c["n"]).expand(num, -1, -1, -1).movedim(-1, dim)
        torch.manual_seed(7919 * seed + c["s"])
        y = call({**c, "dim": dim}, x, key).detach().movedim(dim, -1).reshape(num, -1, c["n"]).argmax(-1)
        i = y[:, 0] * c["n"] + y[:, -1] if two else y[:, 0]
        return torch.bincount(i, minlength=len(joint)).numpy()

    ok, detail = stats.two_stage(counts, joint.numpy(), 4000, 40000)
    t.ok(ok, f"samples do not follow the categorical distribution {probs.tolist()}: p-values {detail}")


# ------------------------------------------------------------ indexing
@st.composite
def st_index(draw):
    c = draw(st_tensor(max_rank=5, max_size=4))
    r = len(c["shape"])
    one_t = draw(st.lists(st.booleans(), min_size=r, max_size=r))
    one_i = draw(st.lists(st.booleans(), min_size=r, max_size=r))
    return {**c, "gain": draw(st.sampled_from([1.0, 30.0, 1e6])), "one_t": one_t, "one_i": one_i, "kind": draw(st.sampled_from(["float", "float", "long", "bool"])), "long": draw(st.integers(0, 3)) == 0}


def run_index(c, t):
    from simple_einet.sampling_utils import index_one_hot

    full, d = c["shape"], c["dim"] % len(c["shape"])
    ts = [1 if o and k != d else n for k, (n, o) in enumerate(zip(full, c["one_t"]))]
    is_ = [1 if o and k != d else n for k, (n, o) in enumerate(zip(full, c["one_i"]))]
    x = tensor({**c, "shape": ts})
    if c["long"]:
        x = x.round().long()
    g = torch.Generator().manual_seed(c["s"] + 3)
    pick = torch.randint(full[d], [n for k, n in enumerate(is_) if k != d] or [1], generator=g)
    if len(full) == 1:
        pick = pick[0]
    idx = torch.nn.functional.one_hot(pick, full[d]).movedim(-1, d)
    idx = {"float": idx.float(), "long": idx, "bool": idx.bool()}[c["kind"]]
    t.label(c["kind"], "rank=%d" % len(full), "broadcast" if ts != is_ else "same-shape")
    t.nontrivial(full[d] > 1)
    kx, ki = x.clone(), idx.clone()
    leaf = x.requires_grad_() if x.is_floating_point() else x
    out = index_one_hot(leaf, idx, c["dim"])
    t.ok(torch.equal(x.detach(), kx) and torch.equal(idx, ki), "operands were modified")
    bshape = [max(a, b) for a, b in zip(ts, is_)]
    want = kx.expand(bshape).gather(d, idx.long().argmax(d, keepdim=True).expand([1 if k == d else n for k, n in enumerate(bshape)])).squeeze(d)
    t.ok(out.shape == want.shape, f"shape {tuple(out.shape)}, expected {tuple(want.shape)}")
    t.ok(torch.equal(out.detach().double(), want.double()), f"indexed {out.tolist()}, expected {want.tolist()}")
    if x.is_floating_point():
        (gr,) = torch.autograd.grad(out.sum(), leaf)
        cnt = idx.double().expand(bshape)
        for k in range(len(full)):
            if ts[k] == 1 and bshape[k] > 1:
                cnt = cnt.sum(k, keepdim=True)
        t.ok(torch.equal(gr.double(), cnt), "gradient of the indexed entries")
        if c["kind"] == "float":  # the gradient with respect to the one-hot (what a straight-through sample passes on) is the tensor
            li = idx.clone().requires_grad_()
            (gi,) = torch.autograd.grad(index_one_hot(kx, li, c["dim"]).sum(), li)
            want = kx.double().expand(bshape)
            for k in range(len(full)):
                if is_[k] == 1 and bshape[k] > 1:
                    want = want.sum(k, keepdim=True)
            t.ok(bool(torch.allclose(gi.double(), want, rtol=1e-4, atol=1e-3 * float(kx.abs().max()) + 1e-6)), lambda: f"gradient of the one-hot {gi.tolist()}, expected {want.tolist()}")
    # mismatching operands are rejected
    for other in (torch.cat([idx, idx], d), idx.unsqueeze(0)):
        try:
            index_one_hot(x.detach(), other, d)
        except (AssertionError, IndexError):
            continue
        t.fail(f"index of shape {tuple(other.shape)} accepted for tensor {tuple(x.shape)} at dimension {d}")


SUBS = [
    Sub("one-hot", st_sample, run_sample, quick=20000, desc="one-hot shape, support, MPE, determinism and straight-through gradients for any rank, dimension, layout and magnitude"),
    Sub("distribution", st_dist, run_dist, quick=1200, desc="joint distribution of two positions against the product of their categoricals"),
    Sub("index", st_index, run_index, quick=15000, desc="indexing by one-hots against gather, with broadcasting and gradients"),
    Sub("invalid", st_tensor, run_invalid, quick=300, desc="ambiguous parameters are rejected"),
]
