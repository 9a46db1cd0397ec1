"""P17: check_valid accepts exactly the values of the type inside the half-open range."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from ..core import Sub

RULE = ("A case is a value (Python, numpy or torch, any width), an expected type, a pair of bounds and allow_none. "
        "Non-trivial: at least one bound is given, or the value is not of the plain expected type.")
ASSUMPTIONS = ["bounds are numbers of the expected type (the code converts them to it)", "expected types are int and float (the only ones the validator supports)",
               "bool-valued tensors and complex values are not judged"]

CORE = ["int", "float"]
NPI = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32"]
NPF = ["float16", "float32", "float64"]
TI = ["int8", "int16", "int32", "int64", "uint8"]
TF = ["float16", "bfloat16", "float32", "float64"]
ODD = ["None", "bool", "str", "list", "dict", "complex", "np.bool_", "np.str_", "ndarray2", "tensor2", "object", "type", "bytes", "tuple", "fraction"]

NUM = st.one_of(st.sampled_from([0, 1, -1, 2, 5, -3, 10, 100]), st.integers(-1000, 1000), st.sampled_from([0.5, -0.5, 0.25, 1.5, 1e-3, -1e-3, 1e6, -1e6, 0.9990234375]),
                st.floats(-100, 100, allow_nan=False, width=16),
                st.sampled_from([2**24 + 1, -(2**24) - 1, 2**31 - 1, 2**31 + 1, 2**53 + 1, -(2**53) - 1, 2**63 - 1, -(2**63)]), st.sampled_from([0.1, 1 / 3, 16777217.0, 1e30, -1e300, 1e-300, 5e-324]))


@st.composite
def st_case(draw):
    expected = draw(st.sampled_from(["int", "float"]))
    kind = draw(st.sampled_from(["core", "core", "np", "torch", "odd"]))
    num = draw(NUM)
    whole = st.integers(-12, 12)
    if expected == "int":
        bound = whole
    else:
        bound = st.one_of(whole.map(float), st.sampled_from([0.0, -0.0, 0.5, -0.5, 1.0, 0.25, 0.125, float("inf"), -float("inf")]))
    lo = draw(st.one_of(st.none(), bound, st.just("value"), st.just("value")))
    hi = draw(st.one_of(st.none(), bound, st.just("value"), st.just("above")))
    dtype = {"core": CORE, "np": NPI + NPF, "torch": TI + TF, "odd": ODD}[kind]
    if draw(st.booleans()) and kind != "odd":
        dtype = [d for d in dtype if d.replace("b", "").startswith(("int", "uint") if expected == "int" else ("float",))]
    return {"expected": expected, "kind": kind, "num": num, "dtype": draw(st.sampled_from(dtype)), "lo": lo, "hi": hi, "none": draw(st.booleans()),
            "dim": draw(st.integers(0, 1)), "nan": draw(st.integers(0, 15)) == 0, "flip": draw(st.booleans())}


def make(case):
    """The value, the Python number it stands for (None if it is not an admissible scalar), and whether it is of integer kind."""
    k, d, v = case["kind"], case["dtype"], case["num"]
    isint = "int" in d
    if k == "odd":
        from fractions import Fraction

        val = {"None": None, "bool": bool(v), "str": str(v), "list": [v], "dict": {"a": v}, "complex": complex(v), "np.bool_": np.bool_(v), "np.str_": np.str_(v),
               "ndarray2": np.array([v, v]), "tensor2": torch.tensor([v, v]), "object": object(), "type": int, "bytes": b"1", "tuple": (v,), "fraction": Fraction(1, 2)}[d]
        return val, None, False
    if isint:
        v = int(v)
        if d.startswith("uint"):
            v = abs(v)
        info = np.iinfo(d if d != "int" else "int64")
        v = max(int(info.min), min(int(info.max), v))
    else:
        v = float("nan") if case["nan"] else float(v)
    if k == "core":
        return v, v, isint
    if k == "np":
        val = np.dtype(d).type(v)
    else:
        val = torch.tensor(v, dtype=getattr(torch, d))
        if case["dim"]:
            val = val.reshape(1)
    return val, (int if isint else float)(val), isint


def run(case, t):
    from simple_einet.type_checks import check_valid

    expected = {"int": int, "float": float}[case["expected"]]
    val, num, isint = make(case)

    def bound(b, up):
        if b == "value":
            return expected(num) if num is not None and math.isfinite(num) else expected(0)
        if b == "above":
            base = num if num is not None and math.isfinite(num) else 0
            return expected(base) + (1 if isint or expected is int else max(0.125, abs(base)))  # representable in every float type
        return b

    lo, hi = bound(case["lo"], False), bound(case["hi"], True)
    t.nontrivial(lo is not None or hi is not None or case["kind"] != "core")
    t.label(case["kind"], "expected=" + case["expected"], "lo=0" if lo == 0 else "lo" if lo is not None else "no-lo", "hi=0" if hi == 0 else "hi" if hi is not None else "no-hi")
    if val is None:
        want = case["none"]
    elif num is None:
        want = False
    else:
        want = isint == (expected is int) and (lo is None or num >= lo) and (hi is None or num < hi)
    t.label("accept" if want else "reject")
    if case["flip"]:
        kw = dict(lower_bound=lo, upper_bound=hi, allow_none=case["none"])
        call = lambda: check_valid(val, expected, **kw)
    else:
        call = lambda: check_valid(val, expected, lo, hi, case["none"])
    desc = f"check_valid({val!r}, {expected.__name__}, {lo}, {hi}, allow_none={case['none']})"
    try:
        got = call()
    except Exception as e:  # noqa: BLE001
        t.ok(not want, f"{desc} raised {type(e).__name__} on a valid value")
        return
    t.ok(want, f"{desc} returned {got!r} instead of raising")
    if val is None:
        t.ok(got is None, f"{desc} returned {got!r}, not None")
    else:
        t.ok(type(got) is expected, f"{desc} returned a {type(got).__name__}")
        t.ok(got == num or (math.isnan(got) and math.isnan(num)), f"{desc} returned {got!r}")


# ------------------------------------------------------------ the validator's users
@st.composite
def st_users(draw):
    return {"which": draw(st.sampled_from(["leaf-features", "leaf-channels", "leaf-leaves", "leaf-reps", "total_count", "n_components", "sums", "dropout", "cardinality",
                                           "sigma", "mean", "alpha"])), "v": draw(st.integers(-3, 4)), "w": draw(st.integers(-3, 4)), "half": draw(st.booleans()),
            "wrong": draw(st.booleans()) and draw(st.booleans())}


def run_users(case, t):
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal
    from simple_einet.layers.distributions.normal import Normal, RatNormal
    from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear
    from simple_einet.layers.einsum import EinsumLayer
    from simple_einet.layers.linsum import LinsumLayer
    from simple_einet.layers.sum import SumLayer
    from simple_einet.mixture import Mixture
    from simple_einet.einet import EinetConfig

    w, v = case["which"], case["v"]
    f = v / 2 if case["half"] else float(v)
    g = case["w"] / 2
    t.label(w)
    t.nontrivial()
    bad = False
    if case["wrong"] and w not in ("sigma", "mean", "alpha"):
        v, f, bad = (str(v) if v % 2 else v + 0.5), (v if v % 2 else "x"), True
    base = dict(num_features=4, num_channels=1, num_leaves=2, num_repetitions=1)
    if w.startswith("leaf"):
        key = {"leaf-features": "num_features", "leaf-channels": "num_channels", "leaf-leaves": "num_leaves", "leaf-reps": "num_repetitions"}[w]
        want, call = (not bad and v >= 1), lambda: Normal(**dict(base, **{key: v}))
    elif w == "total_count":
        want, call = (not bad and v >= 1), lambda: Binomial(**base, total_count=v)
    elif w == "n_components":
        want, call = (not bad and v >= 1), lambda: Mixture(v, EinetConfig(num_features=2, leaf_type=Normal, depth=0, num_leaves=1, num_sums=1, num_repetitions=1))
    elif w == "sums":
        c = [lambda: SumLayer(num_sums_in=v, num_sums_out=2, num_features=2), lambda: SumLayer(num_sums_in=2, num_sums_out=v, num_features=2),
             lambda: LinsumLayer(num_sums_in=v, num_sums_out=2, num_features=2), lambda: EinsumLayer(num_sums_in=2, num_sums_out=v, num_features=2)]
        want, call = (not bad and v >= 1), c[case["w"] % 4]
    elif w == "dropout":
        c = [lambda: SumLayer(num_sums_in=2, num_sums_out=2, num_features=2, dropout=f), lambda: LinsumLayer(num_sums_in=2, num_sums_out=2, num_features=2, dropout=f),
             lambda: EinsumLayer(num_sums_in=2, num_sums_out=2, num_features=2, dropout=f)]
        want, call = (not bad and 0 <= f < 1), c[case["w"] % 3]
    elif w == "cardinality":
        want, call = (not bad and v >= 1), lambda: MultivariateNormal(**dict(base, num_features=12), cardinality=v)
    elif w == "sigma":
        want, call = 0 <= f < g, lambda: RatNormal(**base, min_sigma=float(f), max_sigma=float(g))
    elif w == "mean":
        want, call = f < g, lambda: RatNormal(**base, min_mean=float(f), max_mean=float(g))
    else:
        want, call = f >= 0, lambda: PiecewiseLinear(**base, alpha=float(f))
    try:
        call()
        got = True
    except Exception:  # noqa: BLE001
        got = False
    t.ok(got == want, f"{w}: value {v if w not in ('dropout', 'sigma', 'mean', 'alpha') else (f, g)} was {'accepted' if got else 'rejected'}")


SUBS = [
    Sub("values", st_case, run, quick=16000, desc="values of every kind, type and width against the stated rule"),
    Sub("users", st_users, run_users, quick=2400, desc="the bounds of the leaf, sum and mixture constructors"),
]
