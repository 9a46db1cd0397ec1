"""P16: exactly the valid configurations are accepted, and every accepted one works."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Sub

RULE = ("A case is a valid Einet configuration with up to two fields replaced by values at or beyond a bound or of a wrong kind. "
        "Non-trivial: every case (accepted ones are also queried).")
ASSUMPTIONS = ["dropout=None is not judged (the configuration class tolerates it, the layers do not)",
               "multivariate normal leaves on bottom-up structures or with a feature count that is no multiple of the cardinality: see the known findings",
               "heavy MVN-specific queries (missing values, leaf parameters) are documented as unsupported"]
NAN = float("nan")
INT_FIELDS = {"F": 2, "C": 1, "S": 1, "I": 1, "R": 1, "K": 1, "depth": 0}
NAMES = {"F": "num_features", "C": "num_channels", "S": "num_sums", "I": "num_leaves", "R": "num_repetitions", "K": "num_classes", "depth": "depth"}


@st.composite
def st_case(draw):
    kinds = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")
    if draw(st.integers(0, 5)) == 0:
        c = draw(st.integers(1, 3))
        F = c * draw(st.integers(2, 5))
        cfg = draw(gen.einet_cfg(wide="SIRKC", leaf={"type": "mvn", "card": c}, min_F=F, max_F=F, max_C=2, max_states=None, structs=gen.STRUCTS[:3]))
    else:
        cfg = draw(gen.einet_cfg(wide="SIRKCFV", kinds=kinds, max_states=None, max_F=17, max_C=3, max_S=4, max_I=4, max_R=3, max_K=3, discrete=draw(st.booleans()), dropout=(0.0, 0.0, 0.3, 0.9)))
    muts = []
    if cfg["leaf"]["type"] == "mvn" and cfg["leaf"]["card"] > 1 and draw(st.booleans()):
        # one level too deep, whether or not the groups divide the features
        cfg["F"] += draw(st.integers(0, cfg["leaf"]["card"] - 1))
        muts.append(["depth", "int", int(math.log2(cfg["F"] // cfg["leaf"]["card"])) + 1])
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        what = draw(st.sampled_from(["int", "int", "int", "depth", "dropout", "layer", "struct", "leaf", "combo", "kwargs", "kind"]))
        if what in ("int", "kind"):
            f = draw(st.sampled_from(sorted(INT_FIELDS)))
            if what == "int":
                muts.append([f, "int", INT_FIELDS[f] + draw(st.integers(-3, 0))])
            else:
                muts.append([f, draw(st.sampled_from(["np", "torch", "float", "str", "none", "bool", "np-float"])), None])
        elif what == "depth":
            muts.append(["depth", "int", draw(st.integers(-1, 6))])
        elif what == "dropout":
            muts.append(["dropout", draw(st.sampled_from(["float", "float", "np", "int", "str"])),
                         draw(st.sampled_from([-1.0, -0.5, -1e-6, 0.0, 1e-6, 0.5, 0.999, 1.0, 1.0000001, 2.0, float("inf"), NAN]))])
        elif what == "layer":
            muts.append(["layer", "raw", draw(st.sampled_from(["linsum", "linsum2", "einsum", "sum", "LINSUM", "", None, 3, "linsum3", "mixing", "einsum "]))])
        elif what == "struct":
            muts.append(["struct", "raw", draw(st.sampled_from(["top-down", "bottom-up", "topdown", "", None, "Top-Down", 1, "bottom-up "]))])
        elif what == "combo":
            muts.append(["struct", "raw", "bottom-up"])
            muts.append(["layer", "raw", draw(st.sampled_from(["linsum", "linsum2", "einsum"]))])
        elif what == "leaf":
            muts.append(["leaf", "raw", draw(st.sampled_from(["none", "instance", "module", "str", "sum", "factorized", "int"]))])
        elif what == "kwargs":
            muts.append(["kwargs", "raw", draw(st.sampled_from(["missing", "unknown", "zero"]))])
    return {"cfg": cfg, "muts": muts, "via": draw(st.sampled_from(["ctor", "ctor", "assert"]))}


def fields(case):
    """Constructor arguments after the mutations, whether they are valid, and the plain integer fields."""
    from simple_einet.layers.distributions.normal import Normal
    from simple_einet.layers.sum import SumLayer
    from simple_einet.layers.factorized_leaf import FactorizedLeaf

    cfg = case["cfg"]
    cls, kw = gen.leaf_class_kwargs(cfg["leaf"])
    vals = {NAMES[k]: cfg[k] for k in NAMES}
    vals.update(dropout=cfg["dropout"], layer_type=cfg["layer"], structure=cfg["struct"], leaf_type=cls, leaf_kwargs=dict(kw))
    plain = {k: cfg[k] for k in NAMES}
    bad_kind, bad_kwargs = set(), False
    drop_ok = True
    leaf_ok = True
    for f, how, v in case["muts"]:
        if f in NAMES:
            base = vals[NAMES[f]]
            if how == "int":
                vals[NAMES[f]] = plain[f] = v
                bad_kind.discard(f)
                continue
            base = plain[f]
            vals[NAMES[f]] = {"np": np.int64(base), "torch": torch.tensor(base), "float": float(base), "str": str(base), "none": None, "bool": True,
                              "np-float": np.float32(base)}[how]
            bad_kind.discard(f)
            if how not in ("np", "torch"):
                bad_kind.add(f)
        elif f == "dropout":
            vals["dropout"] = {"float": v, "np": np.float64(v), "int": 0, "str": "0.5"}[how]
            drop_ok = how in ("float", "np") and 0.0 <= v < 1.0
        elif f == "layer":
            vals["layer_type"] = v
        elif f == "struct":
            vals["structure"] = v
        elif f == "leaf":
            leaf_ok = False
            vals["leaf_type"] = {"none": None, "instance": Normal(2, 1, 1, 1), "module": torch.nn.Linear, "str": "normal", "sum": SumLayer, "factorized": int, "int": 3}[v]
        elif f == "kwargs":
            t = cfg["leaf"]["type"]
            if v == "missing" and t in ("binomial", "categorical", "mvn"):
                vals["leaf_kwargs"], bad_kwargs = {}, True
            elif v == "unknown":
                vals["leaf_kwargs"], bad_kwargs = dict(vals["leaf_kwargs"], nonsense=1), True
            elif v == "zero" and t == "binomial":
                vals["leaf_kwargs"], bad_kwargs = {"total_count": 0}, True
    card = vals["leaf_kwargs"].get("cardinality", 1)
    counts = all(plain[k] >= lo for k, lo in INT_FIELDS.items()) and not bad_kind
    valid = counts and drop_ok and leaf_ok and not bad_kwargs
    valid = valid and vals["layer_type"] in ("linsum", "linsum2", "einsum") and vals["structure"] in ("top-down", "bottom-up")
    valid = valid and not (vals["structure"] == "bottom-up" and vals["layer_type"] != "linsum")
    valid = valid and 2 ** plain["depth"] <= plain["F"] // card
    return vals, plain, valid, bad_kwargs


def run(case, t):
    from simple_einet.einet import Einet, EinetConfig

    vals, plain, valid, bad_kwargs = fields(case)
    cfg = case["cfg"]
    leaf = cfg["leaf"]
    if leaf["type"] == "mvn" and (vals["structure"] == "bottom-up" or plain["F"] % leaf["card"]) and valid:
        t.reject()
    if leaf["type"] == "mvn" and isinstance(vals["num_features"], torch.Tensor):
        t.reject()  # a tensor is no int; only some of the leaves compute with it
    if leaf["type"] == "multi" and plain["F"] != cfg["F"]:
        t.reject()  # the scopes no longer cover the features (P20)
    if case["via"] == "assert" and bad_kwargs:
        t.reject()
    t.nontrivial()
    t.label("valid" if valid else "invalid", case["via"], *[m[0] for m in case["muts"]])
    desc = {k: (v if not isinstance(v, type) else v.__name__) for k, v in vals.items()}
    gen.seed_all(cfg["seed"])
    try:
        config = EinetConfig(**vals)
        if case["via"] == "assert":
            config.assert_valid()
        m = Einet(config) if case["via"] == "ctor" or valid else None
    except Exception as e:  # noqa: BLE001
        t.ok(not valid, f"valid configuration rejected ({type(e).__name__}: {e}): {desc}")
        return
    t.ok(valid, f"invalid configuration accepted: {desc}")
    t.ok(m.config is config and config == EinetConfig(**vals), "the configuration was changed")
    # the accepted model works
    N, C, F, K = 3, plain["C"], plain["F"], plain["K"]
    live = dict(cfg, **plain)
    x = gen.random_states(live, N, cfg["seed"])
    mvn = leaf["type"] == "mvn"
    for mode in ("train", "eval"):
        m.train(mode == "train")
        out = m(x)
        t.ok(tuple(out.shape) == (N, K) and bool(torch.isfinite(out).all()), f"{mode} likelihood of shape {tuple(out.shape)}: {out.tolist()}; {desc}")
        out.sum().backward()
    if C == 1:
        t.ok(tuple(m(x[:, 0]).shape) == (N, K), f"likelihood of a (N, F) input; {desc}")
    for k in {1, 2}:
        for kw in ({}, {"is_mpe": True}, {"mpe_at_leaves": True}, {"is_differentiable": True}):
            if kw.get("is_differentiable") and mvn:
                continue
            s = m.sample(num_samples=k, **kw)
            t.ok(tuple(s.shape) == (k, C, F) and bool(torch.isfinite(s).all()), f"sample({k}, {kw}) of shape {tuple(s.shape)}; {desc}")
    s = m.mpe()
    t.ok(tuple(s.shape) == (1, C, F), f"mpe() of shape {tuple(s.shape)}; {desc}")
    if K > 1:
        p = m.posterior(x)
        t.ok(tuple(p.shape) == (N, K), f"posterior of shape {tuple(p.shape)}; {desc}")
        s = m.sample(num_samples=2, class_index=K - 1)
        t.ok(tuple(s.shape) == (2, C, F), f"class sample of shape {tuple(s.shape)}; {desc}")
    if not mvn:
        ev = x.clone()
        ev[:, :, ::2] = NAN
        for s in (m.sample(evidence=ev), m.mpe(evidence=ev), m.sample(evidence=x, marginalized_scopes=[F - 1])):
            t.ok(tuple(s.shape) == (N, C, F) and bool(torch.isfinite(s).all()), f"conditional query of shape {tuple(s.shape)}; {desc}")
        out = m(ev)
        t.ok(tuple(out.shape) == (N, K) and bool(torch.isfinite(out).all()), f"likelihood with missing values; {desc}")


# ------------------------------------------------------------ convolutional configurations
@st.composite
def st_conv(draw):
    return {"num_channels": draw(st.sampled_from([-1, 0, 1, 2, 3, "1", 1.0, None])) if draw(st.booleans()) else 1,
            "num_classes": draw(st.sampled_from([-1, 0, 1, 2, 3, "1", 1.0, None])) if draw(st.booleans()) else 1,
            "leaf": draw(st.sampled_from(["normal", "binomial", "none", "module", "instance", "str"])) if draw(st.booleans()) else "normal",
            "order": draw(st.sampled_from(["sum-prod", "prod-sum", "sum", "", None, "Sum-Prod"])) if draw(st.booleans()) else "sum-prod",
            "structure": draw(st.sampled_from(["top-down", "bottom-up", "topdown", "", None])) if draw(st.booleans()) else "bottom-up"}


def run_conv(case, t):
    from simple_einet.conv_pc import ConvPc, ConvPcConfig
    from simple_einet.data import Shape
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.normal import Normal

    leaf = {"normal": Normal, "binomial": Binomial, "none": None, "module": torch.nn.Linear, "instance": Normal(2, 1, 1, 1), "str": "normal"}[case["leaf"]]
    ok = lambda v: type(v) is int and v >= 1
    valid = (ok(case["num_channels"]) and ok(case["num_classes"]) and case["leaf"] in ("normal", "binomial") and case["order"] in ("sum-prod", "prod-sum")
             and case["structure"] in ("top-down", "bottom-up"))
    t.nontrivial()
    t.label("valid" if valid else "invalid")
    kw = dict(channels=[2, 2], kernel_size=2, num_channels=case["num_channels"], num_classes=case["num_classes"], leaf_type=leaf, order=case["order"],
              structure=case["structure"], leaf_kwargs={"total_count": 3} if case["leaf"] == "binomial" else {})
    try:
        ConvPcConfig(**kw).assert_valid()
        got = True
    except Exception:  # noqa: BLE001
        got = False
    t.ok(got == valid, f"{case} was {'accepted' if got else 'rejected'}")
    C = case["num_channels"] if ok(case["num_channels"]) else 1
    try:
        m = ConvPc(ConvPcConfig(**kw), Shape(C, 4, 4))
        got = True
    except Exception as e:  # noqa: BLE001
        got = False
        if valid:
            t.fail(f"ConvPc rejects the valid configuration {case}: {e!r}")
    t.ok(got == valid, f"a ConvPc was built from {case}")
    if got and valid:
        x = torch.randint(0, 4, (3, C, 4, 4), generator=torch.Generator().manual_seed(1)).float()
        with torch.no_grad():
            ll = m(x)
            ll2 = m(torch.where(x == 1, torch.tensor(float("nan")), x))
            s = m.sample(num_samples=2, seed=3)
            e = m.sample(evidence=torch.where(x == 1, torch.tensor(float("nan")), x), seed=3)
        t.ok(ll.shape[0] == 3 and ll.numel() == 3 and bool(torch.isfinite(ll).all()), f"likelihoods {ll.tolist()} for {case}")
        t.ok(bool(torch.isfinite(ll2).all()) and tuple(s.shape) == (2, C, 4, 4) and tuple(e.shape) == (3, C, 4, 4) and bool(torch.isfinite(e).all()),
             f"queries of {case}: samples {tuple(s.shape)}, completions {tuple(e.shape)}")


# ------------------------------------------------------------ known findings
def _mvn_probe(F, card, struct):
    def probe():
        from simple_einet.einet import Einet, EinetConfig
        from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal

        try:
            m = Einet(EinetConfig(num_features=F, depth=0, leaf_type=MultivariateNormal, leaf_kwargs={"cardinality": card}, structure=struct))
        except Exception:  # noqa: BLE001  (rejected: no finding)
            return False
        try:
            m(torch.zeros(2, F))
            m.sample(num_samples=2)
        except Exception:  # noqa: BLE001
            return True
        return False

    return probe


KNOWN = {"mvn-bottom-up": _mvn_probe(4, 2, "bottom-up"), "mvn-uneven": _mvn_probe(5, 2, "top-down")}

SUBS = [
    Sub("einet", st_case, run, quick=2600, desc="Einet configurations around the bounds: accept/reject and smoke queries of every accepted one"),
    Sub("conv-config", st_conv, run_conv, quick=400, desc="convolutional configurations: field checks, accept/reject of ConvPc itself, smoke queries of the accepted ones"),
]
