"""P15: state dicts, deep copies and pickles reproduce the model exactly."""
import copy
import io
import pickle

import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Sub
from .p14 import KINDS, Net, busy, holes, lab, st_net

RULE = ("A case is a model (Einet, ConvPc or initialised Mixture) with seeded structure and parameters, a second model of the same configuration built "
        "from another seed, and a way of transferring the first into the second. Non-trivial: the two models differ on some query before the transfer.")
ASSUMPTIONS = ["models on CPU", "piecewise-linear leaves are covered by P22 (their densities are fitted data, not parameters)"]


@st.composite
def st_case(draw):
    case = draw(st_net(max_F=12))
    if case["kind"] == "einet":
        case["cfg"]["dropout"] = draw(st.sampled_from([0.0, 0.3]))
    case.update(other=draw(gen.SEED), n=draw(gen.rows(1, 5)), q=draw(gen.SEED), how=draw(st.sampled_from(HOWS)), train=draw(st.booleans()),
                warm=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))
    return case


HOWS = ["state_dict", "state_dict", "saved", "saved", "deepcopy", "pickle", "torch-save", "twice", "mutate-copy"]


def queries(case, net, x):
    """Every inference result of the model on the batch, by name."""
    cfg = case["cfg"]
    mvn = cfg["leaf"]["type"] == "mvn"
    m, out = net.m, {}
    v = net.shape(x)
    full = net.shape(torch.where(x.isnan(), gen.random_states(cfg, len(x), 1), x))
    s = [0] if cfg["F"] < 3 else [0, cfg["F"] - 1]
    with torch.no_grad():
        out["likelihood"] = m(full)
        if not mvn:
            out["likelihood with missing entries"] = m(v)
            out["likelihood with marginalized scopes"] = m(full, s)
        if net.kind == "einet" and net.heads > 1:
            out["posterior"] = m.posterior(full)
    sd = case["seed"]
    n = 3
    out["sample"] = m.sample(num_samples=n, seed=sd).detach()
    out["MPE"] = m.sample(num_samples=1, is_mpe=True).detach()
    out["sample with modes at the leaves"] = m.sample(num_samples=n, seed=sd, mpe_at_leaves=True).detach()
    if not mvn:
        out["conditional sample"] = m.sample(evidence=v, seed=sd).detach()
        out["MPE completion"] = m.sample(evidence=v, is_mpe=True).detach()
        out["sample with marginalized scopes"] = m.sample(evidence=full, seed=sd, marginalized_scopes=s).detach()
    if net.kind == "einet":
        out["differentiable sample"] = m.sample(num_samples=n, seed=sd, is_differentiable=True).detach() if not mvn else out["sample"]
        if net.heads > 1:
            out["class sample"] = m.sample(num_samples=n, class_index=net.heads - 1, seed=sd).detach()
    return out


def same(a, b):
    """Bitwise equal (NaN equals NaN)."""
    return a.shape == b.shape and a.dtype == b.dtype and bool(((a == b) | (a.isnan() & b.isnan())).all())


def run(case, t):
    cfg = case["cfg"]
    src = Net(case)
    lab(case, t)
    t.label(case["how"])
    x = gen.random_states(cfg, case["n"], case["q"])
    if cfg["leaf"]["type"] != "mvn":
        x = holes(x, 0.4, case["q"])
    if case["warm"]:
        queries(case, src, x)  # earlier use must not matter
    want = queries(case, src, x)
    sd0 = {k: v.clone() for k, v in src.m.state_dict().items()}
    how = case["how"]
    if how in ("state_dict", "saved", "twice"):
        c2 = dict(case, cfg=dict(cfg, seed=case["other"]))
        if case["kind"] == "mixture":
            c2["dseed"] = case["other"]
        dst = Net(c2)
        before = queries(case, dst, x)
        t.nontrivial(busy(case) and any(not same(want[k], before[k]) for k in want))
        if how == "twice":
            mid = Net(dict(c2, cfg=dict(cfg, seed=case["other"] ^ 5)))
            mid.m.load_state_dict(src.m.state_dict())
            dst.m.load_state_dict(mid.m.state_dict())
        elif how == "saved":
            buf = io.BytesIO()
            torch.save(src.m.state_dict(), buf)
            buf.seek(0)
            dst.m.load_state_dict(torch.load(buf))
        else:
            dst.m.load_state_dict({k: v.clone() for k, v in src.m.state_dict().items()})
    else:
        t.nontrivial(busy(case))
        if how in ("deepcopy", "mutate-copy"):
            m = copy.deepcopy(src.m)
        elif how == "pickle":
            m = pickle.loads(pickle.dumps(src.m))
        else:
            buf = io.BytesIO()
            torch.save(src.m, buf)
            buf.seek(0)
            m = torch.load(buf, weights_only=False)
        dst = copy.copy(src)
        dst.m = m
        if how == "mutate-copy":
            # the copy shares nothing with the original: changing it leaves the original alone
            got = queries(case, dst, x)
            for k in want:
                t.ok(same(want[k], got[k]), f"{k} of a deep copy differs")
            gen.perturb(dst.m, 3)
            for b in dst.m.buffers():
                if b.is_floating_point():
                    b.mul_(2)
            got = queries(case, src, x)
            for k in want:
                t.ok(same(want[k], got[k]), f"changing a deep copy changed the {k} of the original")
            return
    t.ok(not dst.m.training, "the restored model is not in evaluation mode")
    if case["train"] and how != "mutate-copy":
        dst.m.train()
        dst.m.eval()
    got = queries(case, dst, x)
    for k in want:
        t.ok(same(want[k], got[k]), f"{k} after {how}: {got[k].flatten()[:6].tolist()}, original {want[k].flatten()[:6].tolist()}")
    # the transferred state itself is complete and unchanged
    sd = src.m.state_dict()
    sd2 = dst.m.state_dict()
    t.ok(list(sd) == list(sd2) and all(torch.equal(sd[k], sd2[k]) for k in sd), "the state dicts differ after the transfer")
    t.ok(list(sd) == list(sd0) and all(torch.equal(sd[k], sd0[k]) for k in sd), "queries or saving changed the state dict of the original")
    # parameters of the restored model are trainable in the same way
    a = [(k, p.requires_grad, p.shape) for k, p in src.m.named_parameters()]
    b = [(k, p.requires_grad, p.shape) for k, p in dst.m.named_parameters()]
    t.ok(a == b, "trainable parameters differ after the transfer")


SUBS = [Sub("transfer", st_case, run, quick=1100, desc="state dict into a differently initialised model, saved files, deep copies, pickles; every query compared bitwise")]
