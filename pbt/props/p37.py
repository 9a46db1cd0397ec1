"""P37: bits per dimension and the randomised dependence coefficient are what they are named for."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Sub

RULE = ("A case is a batch of log-likelihoods with an image shape and a number of bins, a discrete or continuous model of generated images, or a "
        "pair of samples with a known kind of dependence. Non-trivial: more than one bin and pixel; at least ten observations.")
ASSUMPTIONS = ["bits per dimension: mean over the batch of -log2 of the probability of the image on its grid of bins, per pixel and channel; a density of images scaled to unit range "
               "counts a bin as 1/n_bins wide (Glow)",
               "dependence coefficient: the definition of Lopez-Paz et al. (2013) as implemented by the cited source; thresholds for independence and dependence leave "
               "a wide margin; fewer than five observations are not generated"]


@st.composite
def st_bpd(draw):
    return {"shape": draw(st.sampled_from([[1, 1, 1], [1, 4, 4], [3, 2, 5], [3, 32, 32], [1, 28, 28], [1, 300, 1], [3, 256, 257], [3, 1024, 1024], [1, 2, 70000], [7, 5, 3]])), "bits": draw(st.integers(1, 8)), "n": draw(gen.rows(1, 6)), "s": draw(gen.SEED),
            "scale": draw(st.sampled_from([0.1, 1.0, 6.0])), "gauss": draw(st.booleans()), "nd": draw(st.sampled_from([1, 2])), "f64": draw(st.booleans()), "asshape": draw(st.booleans())}


def run_bpd(case, t):
    from simple_einet.data import Shape
    from simple_einet.utils import calc_bpd

    n_pix, nb = int(np.prod(case["shape"])), 2 ** case["bits"]
    g = torch.Generator().manual_seed(case["s"])
    lp = torch.randn(case["n"], generator=g, dtype=torch.float64) * case["scale"] * n_pix - n_pix
    if not case["f64"]:
        lp = lp.float()
    if case["nd"] == 2:
        lp = lp[:, None]
    t.nontrivial(n_pix > 1)
    t.label("density" if case["gauss"] else "mass")
    before = lp.clone()
    shape = Shape(*case["shape"]) if case["asshape"] else tuple(case["shape"])
    got = float(calc_bpd(lp, shape if not case["asshape"] else tuple(shape), has_gauss_dist=case["gauss"], n_bins=nb))
    w = float(-lp.double().mean()) / (math.log(2) * n_pix) + (case["bits"] if case["gauss"] else 0)
    t.ok(abs(got - w) <= 1e-4 * (1 + abs(w)), f"{got} bits per dimension, expected {w} ({'density' if case['gauss'] else 'mass'}, {case['bits']} bits, shape {case['shape']})")
    t.ok(torch.equal(lp, before), "the log-likelihoods were changed")


@st.composite
def st_model(draw):
    return {"dist": draw(st.sampled_from(["categorical", "binomial", "normal"])), "bits": draw(st.integers(1, 6)), "F": draw(st.integers(2, 6)), "C": draw(st.integers(1, 3)), "n": draw(st.integers(1, 5)),
            "s": draw(gen.SEED), "flat": draw(st.booleans())}


def run_model(case, t):
    """Two models of the same images: a uniform one needs exactly n bits, whatever it is written with."""
    from simple_einet import utils
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.normal import Normal

    nb, F, C = 2 ** case["bits"], case["F"], case["C"]
    cls, kw = {"categorical": (Categorical, {"num_bins": nb}), "binomial": (Binomial, {"total_count": nb - 1}), "normal": (Normal, {})}[case["dist"]]
    gen.seed_all(case["s"])
    m = Einet(EinetConfig(num_features=F, num_channels=C, depth=1, num_sums=2, num_leaves=2, num_repetitions=1, num_classes=1, leaf_type=cls, leaf_kwargs=kw)).eval()
    gen.perturb(m, case["s"], 1.0, 1.0)
    g = torch.Generator().manual_seed(case["s"])
    k = torch.randint(256, (case["n"], C, F), generator=g)
    gauss = case["dist"] == "normal"
    x = utils.preprocess(k.float() / 255, case["bits"], nb, has_gauss_dist=gauss).float()
    with torch.no_grad():
        if case["flat"] and case["dist"] == "categorical":
            for p in m.leaf.parameters():
                p.zero_()
        ll = m(x)
    t.label(case["dist"])
    t.nontrivial(nb > 2)
    got = float(utils.calc_bpd(ll, (C, 1, F), has_gauss_dist=gauss, n_bins=nb))
    # reference: probability of the bins in base two
    lp = ll.double().flatten()
    if gauss:
        lp = lp + C * F * math.log(1.0 / nb)
    w = float(-lp.mean()) / math.log(2) / (C * F)
    t.ok(abs(got - w) <= 1e-4 * (1 + abs(w)), f"{case['dist']}: {got} bits per dimension, the model needs {w}")
    if case["flat"] and case["dist"] == "categorical":
        t.ok(abs(got - case["bits"]) < 1e-4, f"a uniform model of {case['bits']}-bit images needs {got} bits per dimension")


# ------------------------------------------------------------ dependence
@st.composite
def st_rdc(draw):
    return {"n": draw(st.sampled_from([5, 10, 40, 150, 500])), "kind": draw(st.sampled_from(["ind", "same", "lin", "mono", "square", "noisy", "mv", "mvdep", "ties"])), "s": draw(gen.SEED),
            "k": draw(st.sampled_from([20, 20, 5, 10])), "med": draw(st.sampled_from([1, 1, 1, 2, 3, 4, 5])), "col": draw(st.booleans()), "trans": draw(st.sampled_from(["affine", "cube", "exp"])), "np": draw(gen.SEED)}


def run_rdc(case, t):
    from simple_einet.utils import rdc

    n, kind = case["n"], case["kind"]
    rng = np.random.RandomState(case["s"] % 2**32)
    x = rng.randn(n)
    z = rng.randn(n)
    y = {"ind": z, "same": x.copy(), "lin": -3.0 * x + 1, "mono": np.exp(x), "square": x**2, "noisy": x + 0.2 * z, "mv": rng.randn(n, 3),
         "mvdep": np.column_stack([z, x + 0.05 * rng.randn(n)]), "ties": (x > 0).astype(float)}[kind]
    if case["col"]:
        x = x[:, None]
    t.label(kind, "n=%d" % n)
    t.nontrivial(n >= 10)

    def call(a, b, med=case["med"]):
        np.random.seed(case["np"] % 2**32)
        kw = {} if case["k"] == 20 else {"k": case["k"]}
        return rdc(a, b, n=med, **kw)

    xb, yb = x.copy(), y.copy()
    r = call(x, y)
    t.ok(np.array_equal(x, xb) and np.array_equal(y, yb), "the samples were changed")
    t.ok(np.ndim(r) == 0 and not np.iscomplexobj(r) and 0 <= r <= 1 + 1e-9, f"coefficient {r}")
    t.ok(r == call(x, y), "not determined by numpy's random state")
    f = {"affine": lambda v: 7.0 * v + 100, "cube": lambda v: v**3 + v, "exp": lambda v: np.exp(v / 4)}[case["trans"]]
    same_ranks = all(np.array_equal(np.argsort(np.argsort(c, kind="stable")), np.argsort(np.argsort(f(c), kind="stable"))) for c in list(np.atleast_2d(x.T)) + list(np.atleast_2d(y.T)))
    if same_ranks:
        t.ok(abs(r - call(f(x), f(y))) < 1e-9, f"coefficient {r} is not invariant under {case['trans']} transformation: {call(f(x), f(y))}")
    if n >= 150:
        if kind in ("same", "lin", "mono"):
            t.ok(r > 0.97, f"coefficient {r} of a monotone relation ({n} observations)")
        elif kind in ("square", "noisy"):
            t.ok(r > 0.75, f"coefficient {r} of a strong dependence ({kind}, {n} observations)")
        elif kind == "mvdep":
            t.ok(r > 0.6, f"coefficient {r} of a dependence on one of two variables ({n} observations)")
        elif kind in ("ind", "mv"):
            t.ok(r < {150: 0.75, 500: 0.45}[n], f"coefficient {r} of independent samples ({n} observations)")
    if case["med"] > 1:
        np.random.seed(case["np"] % 2**32)
        one = [rdc(x, y, **({} if case["k"] == 20 else {"k": case["k"]})) for _ in range(case["med"])]
        t.ok(abs(r - np.median(one)) < 1e-12, f"median coefficient {r} of {one}")


# ------------------------------------------------------------ permutations
@st.composite
def st_perm(draw):
    return {"p": draw(st.integers(1, 60).flatmap(lambda n: st.permutations(range(n)))), "v": draw(gen.SEED)}


def run_perm(case, t):
    from simple_einet.utils import invert_permutation

    p = torch.tensor(list(case["p"]))
    q = invert_permutation(p)
    t.nontrivial(len(p) > 2)
    n = torch.arange(len(p))
    t.ok(q.shape == p.shape and torch.equal(q[p], n) and torch.equal(p[q], n), f"inverse of {p.tolist()}: {q.tolist()}")


SUBS = [
    Sub("bpd", st_bpd, run_bpd, quick=2000, desc="bits per dimension of given log-likelihoods"),
    Sub("models", st_model, run_model, quick=400, desc="bits per dimension of images under discrete and continuous models"),
    Sub("rdc", st_rdc, run_rdc, quick=600, desc="range, invariance, determinism and extremes of the dependence coefficient"),
    Sub("permutations", st_perm, run_perm, quick=500, desc="inverse permutations"),
]
