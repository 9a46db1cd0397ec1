"""P29: image preprocessing maps pixel levels one-to-one onto model bins."""
import itertools
from types import SimpleNamespace

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, stats
from ..core import Sub

RULE = ("A case is an image batch of k/255 levels (every level occurs in most cases), a bit depth, leaf kind, dequantisation flag, memory layout and data type, or a leaf configuration for a bit depth. "
        "Non-trivial: more than two bins.")
ASSUMPTIONS = ["exp_utils.reduce_bits/preprocess do not check the range",
               "dequantised values may touch the next bin by single-precision rounding"]


@st.composite
def st_image(draw):
    return {"bits": draw(st.integers(1, 8)), "gauss": draw(st.booleans()), "deq": draw(st.booleans()), "f64": draw(st.integers(0, 4)) == 0, "s": draw(gen.SEED),
            "full": draw(st.integers(0, 3)) > 0, "shape": draw(st.sampled_from([[1, 1, 16, 16], [2, 1, 8, 16], [1, 4, 64], [256], [257], [4, 8, 8], [2, 3, 7, 5], [1, 1, 17, 17], [3, 5, 7], [3, 3, 32, 32]])),
            "strided": draw(st.booleans()), "how": draw(st.sampled_from(["div", "numpy", "u8"])), "ft": draw(st.sampled_from([0, 0, 1]))}


def image_of(case):
    g = torch.Generator().manual_seed(case["s"])
    n = int(np.prod(case["shape"]))
    k = torch.randint(256, (n,), generator=g)
    if case["full"] and n >= 256:
        k[:256] = torch.arange(256)
        k = k[torch.randperm(n, generator=g)]
    k = k.view(case["shape"])
    dt = torch.float64 if case["f64"] else torch.float32
    if case["how"] == "numpy":
        x = torch.from_numpy((k.numpy() / 255).astype("float64" if case["f64"] else "float32"))
    elif case["how"] == "u8":
        x = k.to(torch.uint8).to(dt).div(255)
    else:
        x = k.to(dt) / 255
    if case["strided"]:
        p = list(range(x.dim()))[::-1]
        x = x.permute(p).contiguous().permute(p)
    return k, x


def run_image(case, t):
    import exp_utils
    from simple_einet import utils

    b, nb = case["bits"], 2 ** case["bits"]
    k, x = image_of(case)
    want = k // 2 ** (8 - b)
    t.label("bits=%d" % b, "gauss" if case["gauss"] else "discrete", "dequantised" if case["deq"] else "exact", "f64" if case["f64"] else "f32")
    t.nontrivial(nb > 2)
    before = x.clone()
    for name, r in (("utils.reduce_bits", utils.reduce_bits(x, b)), ("exp_utils.reduce_bits", exp_utils.reduce_bits(x, b)), ("exp_utils.preprocess", exp_utils.preprocess(x, b))):
        t.ok(r.shape == x.shape and bool((r.double() == want.double()).all()), f"{name}: {b} bits: levels {k[r.double() != want.double()][:5].tolist()} become {r[r.double() != want.double()][:5].tolist()}")
    y = utils.preprocess(x, b, nb, dequantize=case["deq"], has_gauss_dist=case["gauss"])
    t.ok(torch.equal(x, before), "the image was modified")
    t.ok(y.shape == x.shape, f"shape {tuple(y.shape)}, expected {tuple(x.shape)}")
    if not case["gauss"]:
        t.ok(y.dtype == torch.int64, f"bins of type {y.dtype}")
        bad = y != want
        t.ok(not bool(bad.any()), f"{b} bits: levels {k[bad][:5].tolist()} become {y[bad][:5].tolist()}, expected {want[bad][:5].tolist()}")
        t.ok(not case["full"] or x.numel() < 256 or sorted(set(y.flatten().tolist())) == list(range(nb)), f"bins {sorted(set(y.flatten().tolist()))[:9]}... of {nb}")
        return
    base = want.double() / nb - 0.5
    t.ok(y.dtype == x.dtype, f"type {y.dtype} of a {x.dtype} image")
    d = (y.double() - base) * nb
    if not case["deq"]:
        t.ok(bool((d.abs() < 1e-4).all()), f"{b} bits: levels {k[d.abs() >= 1e-4][:5].tolist()} become {y[d.abs() >= 1e-4][:5].tolist()}")
        return
    t.ok(bool((d > -1e-4).all() and (d < 1 + 1e-4).all()), f"{b} bits: dequantised values leave their bin by {float((d - 0.5).abs().max() - 0.5)} bins")
    t.ok(bool((y >= -0.5 - 1e-6).all() and (y <= 0.5 + 1e-6).all()), "dequantised values outside [-0.5, 0.5]")
    if x.numel() > 4:
        t.ok(len(set(d.flatten().tolist())) > x.numel() * 0.3, "pixels share their noise")
    z = utils.preprocess(x, b, nb, dequantize=True, has_gauss_dist=True)
    t.ok(not torch.equal(y, z), "dequantisation adds the same noise every time")
    torch.manual_seed(case["s"])
    a = utils.preprocess(x, b, nb, dequantize=True, has_gauss_dist=True)
    torch.manual_seed(case["s"])
    t.ok(torch.equal(a, utils.preprocess(x, b, nb, dequantize=True, has_gauss_dist=True)), "the noise is not controlled by the global random state")


@st.composite
def st_noise(draw):
    return {"bits": draw(st.integers(1, 8)), "s": draw(gen.SEED), "how": draw(st.sampled_from(["preprocess", "dequantize"]))}


def run_noise(case, t):
    from simple_einet import utils

    b, nb = case["bits"], 2 ** case["bits"]
    t.label("bits=%d" % b, case["how"])
    t.nontrivial(nb > 2)

    def draw(n, s):
        torch.manual_seed(case["s"] + s)
        k = torch.randint(256, (n,), generator=torch.Generator().manual_seed(case["s"]))
        x = k.float() / 255
        if case["how"] == "preprocess":
            d = (utils.preprocess(x, b, nb) + 0.5).double() * nb - (k // 2 ** (8 - b)).double()
        else:
            d = (utils.dequantize_image(x, nb).double() - x.double()) * nb
        d = d.numpy()
        j = (d * 10).astype(int).clip(0, 9)
        return np.bincount(j, minlength=10)

    ok, det = stats.two_stage(draw, np.full(10, 0.1), 2000)
    t.ok(ok, f"the dequantisation noise is not uniform on a bin (p={det})")


@st.composite
def st_invalid(draw):
    return {"v": draw(st.sampled_from([-1e-3, 1.001, -0.5, 2.0, 255.0, float("inf"), -float("inf"), float("nan")])), "bits": draw(st.integers(1, 8)), "s": draw(gen.SEED), "gauss": draw(st.booleans())}


def run_invalid(case, t):
    from simple_einet import utils

    t.nontrivial(True)
    x = torch.rand(2, 1, 3, 3, generator=torch.Generator().manual_seed(case["s"]))
    for f in (lambda y: utils.reduce_bits(y, case["bits"]), lambda y: utils.preprocess(y, case["bits"], 2 ** case["bits"], has_gauss_dist=case["gauss"])):
        f(x)
        y = x.clone()
        y.view(-1)[case["s"] % y.numel()] = case["v"]
        try:
            f(y)
        except (AssertionError, ValueError):
            continue
        t.fail(f"an image with a value of {case['v']} is accepted")


# ------------------------------------------------------------ the leaf derived for n bits
@st.composite
def st_dist(draw):
    return {"dist": draw(st.sampled_from(["binomial", "categorical", "normal", "normal_rat", "multivariate_normal", "piecewise_linear"])), "bits": draw(st.integers(1, 8)), "s": draw(gen.SEED),
            "min": draw(st.sampled_from([0.01, 0.1, 0.5])), "width": draw(st.sampled_from([0.2, 1.0, 2.0])), "card": draw(st.integers(1, 3)), "L": draw(st.integers(1, 3)), "R": draw(st.integers(1, 2))}


def run_dist(case, t):
    from simple_einet import dist as D, utils
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal
    from simple_einet.layers.distributions.normal import Normal, RatNormal
    from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear

    nb = 2 ** case["bits"]
    cfg = SimpleNamespace(n_bits=case["bits"], min_sigma=case["min"], max_sigma=case["min"] + case["width"], multivariate_cardinality=case["card"])
    kind = D.Dist(case["dist"])
    kw, cls = D.get_distribution(dist=kind, cfg=cfg)
    t.label("dist=" + case["dist"])
    t.nontrivial(nb > 2 or case["dist"] not in ("binomial", "categorical"))
    want = {"binomial": Binomial, "categorical": Categorical, "normal": Normal, "normal_rat": RatNormal, "multivariate_normal": MultivariateNormal, "piecewise_linear": PiecewiseLinear}[case["dist"]]
    t.ok(cls is want, f"{case['dist']}: leaf type {cls}")
    disc = case["dist"] in ("binomial", "categorical")
    t.ok(D.get_data_type_from_dist(kind) == (D.DataType.DISCRETE if disc else D.DataType.CONTINUOUS), f"data type of {case['dist']}")
    F = case["card"] * 2 if case["dist"] == "multivariate_normal" else 2
    gen.seed_all(case["s"])
    m = Einet(EinetConfig(num_features=F, depth=1, num_sums=2, num_leaves=case["L"], num_repetitions=case["R"], num_classes=1, leaf_type=cls, leaf_kwargs=dict(kw))).eval()
    gen.perturb(m, case["s"], 1.0, 1.0)
    if case["dist"] == "piecewise_linear":
        return
    if not disc:
        out = m(torch.rand(3, 1, F))
        t.ok(bool(torch.isfinite(out).all()), "log-likelihood not finite")
        if case["dist"] == "normal_rat":
            with torch.no_grad():
                sg = m.leaf.base_leaf.get_params()[..., 1]
            t.ok(bool((sg >= cfg.min_sigma - 1e-4).all() and (sg <= cfg.max_sigma + 1e-4).all()), f"standard deviations {float(sg.min())}..{float(sg.max())} outside of [{cfg.min_sigma}, {cfg.max_sigma}]")
        if case["dist"] == "multivariate_normal":
            t.ok(m.leaf.base_leaf.cardinality == case["card"], "cardinality of the leaf")
        return
    # every preprocessed image has a likelihood, and the images of two pixels have total probability one
    img = torch.arange(256).float().div(255).view(128, 1, 2)
    ll = m(utils.preprocess(img, case["bits"], nb, has_gauss_dist=False).float())
    t.ok(bool(torch.isfinite(ll).all()), "a preprocessed image has no finite log-likelihood")
    v = torch.arange(nb, dtype=torch.float32)
    nan = torch.full((nb,), float("nan"))
    for f in range(2):
        x = torch.stack([v, nan] if f == 0 else [nan, v], -1).view(nb, 1, 2)
        p = gen.forward_chunks(m, x).double().exp()
        t.ok(bool(torch.isfinite(p).all()) and abs(float(p.sum()) - 1) < 1e-3, f"the {nb} values of pixel {f} have total probability {float(p.sum())}")
    s = m.sample(num_samples=200, seed=1)
    t.ok(bool(((s >= 0) & (s <= nb - 1) & (s == s.round())).all()), f"samples outside of the {nb} values: {float(s.min())}..{float(s.max())}")


SUBS = [
    Sub("image", st_image, run_image, quick=4000, desc="levels, bins, ranges, noise per pixel, input untouched, for every layout, type and bit depth"),
    Sub("noise", st_noise, run_noise, quick=200, desc="uniformity of the dequantisation noise"),
    Sub("invalid", st_invalid, run_invalid, quick=400, desc="images outside of [0, 1] are rejected"),
    Sub("dist", st_dist, run_dist, quick=500, desc="leaf type, arguments and support derived from a configuration"),
]
