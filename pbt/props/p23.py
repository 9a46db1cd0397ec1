"""P23: histogram binning equals NumPy's automatic rule."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Sub

RULE = ("A case is a finite float vector (normal, skewed, tied, constant, tiny, shifted, scaled, integer-valued, hand-picked) and an optional explicit range. "
        "Non-trivial: NumPy chooses more than one bin.")
ASSUMPTIONS = ["one-dimensional finite data (the documented 1D tensor, or the column vector piecewise-linear leaves pass)",
               "the number of bins may differ by one when NumPy's quotient is within float32 rounding of an integer",
               "data sets for which NumPy would choose more than 20000 bins are not generated"]


@st.composite
def st_data(draw):
    kind = draw(st.sampled_from(["normal", "skew", "tied", "const", "integers", "list", "empty", "uniform", "outlier", "bimodal"]))
    case = {"kind": kind, "n": draw(st.sampled_from([1, 2, 3, 4, 5, 7, 10, 30, 100, 500])), "s": draw(gen.SEED),
            "loc": draw(st.sampled_from([0.0, 0.0, 3.0, -100.0])), "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4, 1e-8, 1e-15, 1e9])), "column": draw(st.integers(0, 4)) == 0,
            "range": draw(st.sampled_from([None, None, None, "inside", "outside", "around", "point", "int"])), "f64": draw(st.integers(0, 4)) == 0}
    if kind == "list":
        case["values"] = draw(st.lists(st.floats(-1000, 1000, width=32), min_size=1, max_size=12))
    return case


def data_of(case):
    rng = np.random.default_rng(case["s"])
    n, k = case["n"], case["kind"]
    if k == "empty":
        return np.zeros(0, np.float32)
    if k == "list":
        return np.array(case["values"], np.float32)
    if k == "const":
        x = np.full(n, rng.integers(-3, 4))
    elif k == "integers":
        x = rng.integers(0, 6, n)
    elif k == "tied":
        x = np.round(rng.normal(size=n) * 2) / 2
        if rng.random() < 0.5:
            x[: int(0.9 * n)] = x[0]  # the interquartile range is zero
    elif k == "skew":
        x = np.exp(rng.normal(size=n))
    elif k == "uniform":
        x = rng.random(n)
    elif k == "outlier":
        x = rng.normal(size=n)
        x[0] = 50
    elif k == "bimodal":
        x = rng.normal(size=n) + 8 * (rng.random(n) < 0.5)
    else:
        x = rng.normal(size=n)
    return (x * case["scale"] + case["loc"]).astype(np.float32)


def range_of(case, a):
    k = case["range"]
    if k is None:
        return None
    lo, hi = (float(a.min()), float(a.max())) if len(a) else (0.0, 1.0)
    w = hi - lo
    r = {"inside": (lo + 0.23 * w, hi - 0.31 * w), "outside": (hi + 1.0, hi + 2.5), "around": (lo - 0.4 * w - 1, hi + 0.7 * w + 1), "point": (lo, lo),
            "int": (int(np.floor(lo)), int(np.ceil(hi)) + 1)}[k]
    return r if k == "int" else tuple(float(np.float32(v)) for v in r)  # exact in the precision of the data


def quotient(a, rg):
    """(last - first) / width of NumPy's automatic rule in float64, None without data in range or with zero width."""
    a = a.astype(float)
    lo, hi = rg if rg is not None else ((a.min(), a.max()) if len(a) else (0.0, 1.0))
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    if rg is not None:
        a = a[(a >= lo) & (a <= hi)]
    if len(a) == 0:
        return lo, hi, None, False
    fd = 2 * np.subtract(*np.percentile(a, [75, 25])) * len(a) ** (-1 / 3)
    sturges = np.ptp(a) / (np.log2(len(a)) + 1)
    shaky = 0 < fd < 1e-5 * max(np.abs(a).max(), 1e-30)  # zero or not depends on rounding
    w = min(fd, sturges) if fd else sturges
    return lo, hi, (hi - lo) / w if w else None, shaky


def run_edges(case, t):
    from simple_einet.histogram import _get_bin_edges_torch

    a = data_of(case)
    rg = range_of(case, a)
    lo, hi, q, shaky = quotient(a, rg)
    if shaky or (q or 0) > 20000 or (rg is None and len(a) and 0 < a.max() - a.min() < 1e-5 * np.abs(a).max()):
        t.reject()
    t.label("kind=" + case["kind"], "range=" + str(case["range"]))
    if rg is not None and not np.float64(lo) <= hi:
        t.reject()
    want = np.histogram_bin_edges(a.astype(float), bins="auto", range=rg)
    t.nontrivial(len(want) > 2)
    x = torch.tensor(a, dtype=torch.float64 if case["f64"] else torch.float32)
    keep = x.clone()
    if case["column"] and rg is None:
        x = x.view(-1, 1)
    edges, (first, last, k) = _get_bin_edges_torch(x, range=rg) if rg is not None else _get_bin_edges_torch(x)
    t.ok(torch.equal(x.reshape(-1), keep), "the data was modified")
    got = edges.detach().double().numpy()
    t.ok(got.ndim == 1 and len(got) == int(k) + 1, f"{got.shape} edges for {k} bins")
    tol = 2e-6 * max(abs(lo), abs(hi), hi - lo)
    t.ok(abs(float(first) - lo) <= tol and abs(float(last) - hi) <= tol, f"bins from {first} to {last}, numpy: {lo} to {hi}")
    if len(got) != len(want):
        # rounding of the data to float32 around the interquartile range and of the quotient
        rel = 2e-6 + (1e-6 * np.abs(a).max() * q / (hi - lo) if q is not None else 0)  # of the quotient
        amb = q is not None and np.ceil(q * (1 - rel)) <= len(got) - 1 <= np.ceil(q * (1 + rel))
        t.ok(amb, f"{len(got) - 1} bins, numpy: {len(want) - 1} (quotient {q})")
        want = np.linspace(lo, hi, len(got))
    t.ok(bool((np.abs(got - want) <= tol + 1e-12).all()), f"edges {got[:6].tolist()}, numpy: {want[:6].tolist()}")


def run_np(case, t):
    """The NumPy variant of the module agrees with the installed NumPy."""
    from simple_einet import histogram as h

    a = data_of(case).astype(float)
    rg = range_of(case, a.astype(np.float32))
    lo, hi, q, _ = quotient(a, rg)
    if (q or 0) > 20000:
        t.reject()
    t.label("kind=" + case["kind"], "range=" + str(case["range"]))
    for bins in ("auto", 1 + case["s"] % 9, np.sort(np.random.default_rng(case["s"]).normal(size=4))):
        want = np.histogram_bin_edges(a, bins=bins, range=rg)
        got, _ = h._get_bin_edges_np(a, bins, range=rg)
        t.nontrivial(len(want) > 2)
        t.ok(len(got) == len(want) and np.allclose(got, want, rtol=1e-9, atol=1e-12), f"bins={bins!r}: edges {np.asarray(got)[:6].tolist()}, numpy: {want[:6].tolist()}")


@st.composite
def st_bad(draw):
    return {"kind": draw(st.sampled_from(["inf", "nan", "order", "inf-range", "weights"])), "n": draw(st.integers(1, 9)), "s": draw(gen.SEED)}


def run_bad(case, t):
    """Where NumPy rejects the data or range, so does the torch version."""
    from simple_einet.histogram import _get_bin_edges_torch

    t.label("kind=" + case["kind"])
    t.nontrivial(True)
    g = torch.Generator().manual_seed(case["s"])
    x = torch.randn(case["n"], generator=g)
    kw = {}
    i = case["s"] % case["n"]
    if case["kind"] == "inf":
        x[i] = float("inf") if case["s"] % 2 else -float("inf")
    elif case["kind"] == "nan":
        x[i] = float("nan")
    elif case["kind"] == "order":
        kw["range"] = (1.0, 0.5)
    elif case["kind"] == "inf-range":
        kw["range"] = (0.0, float("inf")) if case["s"] % 2 else (-float("inf"), 0.0)
    else:
        kw["weights"] = torch.ones(case["n"])
    exc = TypeError if case["kind"] == "weights" else ValueError
    try:
        out = _get_bin_edges_torch(x, **kw)
    except exc:
        return
    t.fail(f"{case['kind']}: accepted, edges {out[0][:4].tolist()} (numpy raises {exc.__name__})")


SUBS = [
    Sub("edges", st_data, run_edges, quick=12000, desc="number of bins and edges of the torch version against numpy.histogram_bin_edges(bins='auto')"),
    Sub("numpy", st_data, run_np, quick=3000, desc="the module's NumPy variant against the installed NumPy"),
    Sub("invalid", st_bad, run_bad, quick=400, desc="non-finite data, invalid ranges and weights are rejected as NumPy does"),
]
