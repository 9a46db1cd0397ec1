"""P11: queries are pure - no history of (also failing) calls changes later results."""
import random

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Sub
from .p14 import Net, busy, lab, st_net

RULE = ("A case is an Einet configuration and a history of parameter updates, valid calls, calls with invalid arguments and calls interrupted by a "
        "fault injected into one module, followed by probe queries. Non-trivial: a sum node has two children and the history has at least two calls.")
ASSUMPTIONS = ["injected faults are exceptions raised by the forward or sample method of one module of the model"]
NAN = float("nan")
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")
VALID = ["forward", "forward-nan", "forward-scopes", "posterior", "sample", "class", "list", "evidence", "evidence-other-batch", "scopes", "mpe", "diff",
         "diff-evidence", "leaves", "temps", "params", "no-grad-forward", "backward"]
UPDATES = ["update-step", "update-data", "update-load", "update-swap"]
INVALID = ["both", "bad-class", "bad-features", "bad-channels", "bad-scope", "list-mismatch", "evidence-none-type", "posterior-single", "class-single",
           "evidence-scope-oob", "str-temperature"]


@st.composite
def st_case(draw):
    cfg = draw(gen.einet_cfg(wide="SIRKCV", kinds=ALL, max_states=None, max_F=9, max_C=2, max_S=3, max_I=3, max_R=3, max_K=3, discrete=None))
    op = st.one_of(
        st.fixed_dictionaries({"op": st.sampled_from(VALID), "s": st.integers(0, 999), "seed": st.sampled_from([None, 0, 7])}),
        st.fixed_dictionaries({"op": st.sampled_from(INVALID), "s": st.integers(0, 999), "seed": st.sampled_from([None, 0, 7])}),
        st.fixed_dictionaries({"op": st.sampled_from(["sample", "class", "evidence", "scopes", "mpe", "diff-evidence", "forward"]), "s": st.integers(0, 999),
                               "seed": st.sampled_from([None, 5]), "fault": st.integers(0, 30), "meth": st.sampled_from(["forward", "sample"]), "after": st.integers(0, 1)}),
        st.fixed_dictionaries({"op": st.sampled_from(UPDATES), "s": st.integers(0, 999), "seed": st.just(None)}),
    )
    return {"cfg": cfg, "ops": draw(st.lists(op, min_size=1, max_size=7)), "train": draw(st.booleans()), "probe": draw(st.integers(0, 999)),
            "grad": draw(st.booleans())}


class Fault(RuntimeError):
    pass


def call(m, cfg, op, given=None):
    """One query; returns its result (tensor) or raises. `given` collects the tensors handed to the model with copies of them."""
    n = 1 + op["s"] % 4
    o, seed = op["op"], op["seed"]
    x = gen.random_states(cfg, n, op["s"])
    mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(op["s"])) < 0.5
    ev = x.masked_fill(mask, NAN)
    k = op["s"] % cfg["K"]
    classes = [(k + i) % cfg["K"] for i in range(n)]
    scopes = list(dict.fromkeys([op["s"] % cfg["F"], 0, op["s"] // 7 % cfg["F"]][: 1 + op["s"] % 3]))  # in no particular order
    if given is not None:
        given += [(x, x.clone()), (ev, ev.clone()), (classes, list(classes)), (scopes, list(scopes))]
    if o == "forward":
        return m(x)
    if o == "forward-nan":
        return m(ev)
    if o == "forward-scopes":
        return m(x, marginalized_scopes=scopes)
    if o == "no-grad-forward":
        with torch.no_grad():
            return m(x)
    if o == "backward":
        if not torch.is_grad_enabled():
            return m(x)
        ll = m(x)
        torch.autograd.grad(ll.sum(), [p for p in m.parameters() if p.requires_grad], allow_unused=True)
        return ll
    if o == "posterior":
        return m.posterior(x) if cfg["K"] > 1 else m(x)
    if o == "sample":
        return m.sample(num_samples=n, seed=seed)
    if o == "class":
        return m.sample(num_samples=n, class_index=k, seed=seed) if cfg["K"] > 1 else m.sample(num_samples=n, seed=seed)
    if o == "list":
        return m.sample(class_index=classes, seed=seed) if cfg["K"] > 1 else m.sample(seed=seed)
    if o == "evidence":
        return m.sample(evidence=ev, seed=seed)
    if o == "evidence-other-batch":
        return m.sample(evidence=ev[:1].expand(7, -1, -1), seed=seed)
    if o == "scopes":
        return m.sample(evidence=x, marginalized_scopes=scopes, seed=seed)
    if o == "mpe":
        return m.mpe(evidence=ev)
    if o == "diff":
        return m.sample(num_samples=n, is_differentiable=True, seed=seed)
    if o == "diff-evidence":
        return m.sample(evidence=ev, is_differentiable=True, seed=seed)
    if o == "leaves":
        return m.sample(num_samples=n, mpe_at_leaves=True, seed=seed)
    if o == "temps":
        return m.sample(num_samples=n, temperature_leaves=0.3, temperature_sums=3.0, seed=seed)
    if o == "params":
        if cfg["struct"] == "top-down" and cfg["leaf"]["type"] != "multi":
            return m.sample(num_samples=n, return_leaf_params=True, seed=seed)
        return m.sample(num_samples=n, seed=seed)
    # invalid calls
    if o == "both":
        return m.sample(num_samples=n, evidence=ev, seed=seed)
    if o == "bad-class":
        return m.sample(num_samples=n, class_index=cfg["K"] + 3, seed=seed)
    if o == "bad-features":
        return m.sample(evidence=torch.cat([ev, ev], -1), seed=seed)
    if o == "bad-channels":
        return m.sample(evidence=torch.cat([ev, ev], 1), seed=seed)
    if o == "bad-scope":
        return m(x, marginalized_scopes=[cfg["F"] + 5])
    if o == "evidence-scope-oob":
        return m.sample(evidence=x, marginalized_scopes=[cfg["F"] + 5], seed=seed)
    if o == "list-mismatch":
        return m.sample(num_samples=n + 1, class_index=[0] * n, seed=seed)
    if o == "evidence-none-type":
        return m.sample(evidence="nothing", seed=seed)
    if o == "posterior-single":
        return m.posterior(x[..., :1])
    if o == "class-single":
        return m.sample(num_samples=n, class_index="a", seed=seed)
    if o == "str-temperature":
        return m.sample(num_samples=n, temperature_sums="hot", seed=seed)
    raise KeyError(o)


def update(m, op):
    """Change the parameters as a training step, an assignment or a restored state dict would."""
    g = torch.Generator().manual_seed(op["s"])
    ps = [p for p in m.parameters() if p.requires_grad]
    new = [p.detach() + 0.7 * torch.randn(p.shape, generator=g) for p in ps]
    if op["op"] == "update-step":
        for p, v in zip(ps, new):
            p.grad = p.detach() - v
        torch.optim.SGD(ps, lr=1.0).step()
        for p in ps:
            p.grad = None
    elif op["op"] == "update-data":
        for p, v in zip(ps, new):
            p.data.copy_(v)
    elif op["op"] == "update-swap":
        for p, v in zip(ps, new):
            p.data = v
    else:
        ids = {id(p): v for p, v in zip(ps, new)}
        sd = m.state_dict()
        sd.update({k: ids[id(p)] for k, p in m.named_parameters() if id(p) in ids})
        m.load_state_dict(sd)


def snapshot(m):
    return {k: v.clone() for k, v in m.state_dict().items()}, [x.training for x in m.modules()], [p.requires_grad for p in m.parameters()]


def hold_grads(m):
    """Gradients waiting for an optimiser step; returns a function telling whether they are untouched."""
    held = []
    for i, p in enumerate(p for p in m.parameters() if p.requires_grad):
        p.grad = torch.full_like(p, 0.25 + i)
        held.append((p, p.grad, 0.25 + i))
    return lambda: all(p.grad is g and bool((g == v).all()) for p, g, v in held)


def rng():
    return torch.get_rng_state(), random.getstate(), np.random.get_state()[1].copy()


def with_fault(m, op):
    mods = [x for x in m.modules()]
    mod = mods[op["fault"] % len(mods)]
    orig = getattr(mod, op["meth"], None)
    if orig is None or mod is m and op["meth"] == "sample":
        mod, orig = mods[-1], mods[-1].forward
        op = dict(op, meth="forward")

    def broken(*a, **kw):
        if op["after"]:
            orig(*a, **kw)
        raise Fault("injected")

    object.__setattr__(mod, op["meth"], broken)
    return lambda: mod.__dict__.pop(op["meth"])


def run(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg, train=case["train"])

    def fresh():
        f = gen.build(cfg, train=case["train"])
        f.load_state_dict(m.state_dict())
        return f

    torch.set_grad_enabled(case["grad"])
    snap0 = snapshot(m)
    t.label(*gen.labels(cfg))
    failed = 0
    for i, op in enumerate(case["ops"]):
        if op["op"] in UPDATES:
            update(m, op)
            snap0 = snapshot(m)
            t.label(op["op"])
            continue
        gen.seed_all(case["probe"] + i)
        before = rng()
        undo = with_fault(m, op) if "fault" in op else None
        err, out, given = None, None, []
        kept = hold_grads(m)
        try:
            out = call(m, cfg, op, given)
        except Exception as e:
            err = e
        finally:
            if undo:
                undo()
        what = f"call {i} ({op['op']}{' with an injected fault' if undo else ''}{', seeded' if op['seed'] is not None else ''})"
        for a, b in given:
            if isinstance(a, list):
                t.ok(a == b, f"{what} modified a list the caller passed in: {b} became {a}")
                continue
            t.ok(a.shape == b.shape and torch.equal(torch.nan_to_num(a, 123.0), torch.nan_to_num(b, 123.0)), f"{what} modified a tensor the caller passed in")
        if err is None and undo is None and op["op"] in VALID:
            ref = fresh()
            gen.seed_all(case["probe"] + i)
            exp = call(ref, cfg, op)
            t.ok(torch.equal(torch.nan_to_num(out.detach()), torch.nan_to_num(exp.detach())), f"{what} returns another result than on a fresh model")
            t.ok(out.requires_grad == exp.requires_grad, f"{what} returns a result with requires_grad={out.requires_grad}, on a fresh model {exp.requires_grad}")
        elif op["op"] in VALID and undo is None:
            raise err
        else:
            failed += err is not None
        t.label(op["op"], "failed-call" if err is not None else "ok-call")
        deterministic = op["op"].startswith(("forward", "posterior", "backward", "no-grad", "bad-scope")) or op["seed"] is not None and op["op"] != "mpe"
        if deterministic and undo is None or op["seed"] is not None and op["op"] != "mpe":
            after = rng()
            t.ok(torch.equal(before[0], after[0]) and before[1] == after[1] and np.array_equal(before[2], after[2]),
                 f"{what} changed the global random state")
        snap1 = snapshot(m)
        t.ok(set(snap0[0]) == set(snap1[0]) and all(torch.equal(snap0[0][k], snap1[0][k]) for k in snap0[0]), f"{what} changed a parameter or buffer")
        t.ok(snap0[1] == snap1[1] and snap0[2] == snap1[2], f"{what} changed the training mode or requires_grad")
        t.ok(kept(), f"{what} changed the gradients that wait for an optimiser step")
        t.ok(torch.is_grad_enabled() == case["grad"], f"{what} left the gradient mode changed")
    t.nontrivial(gen.nontrivial(cfg) and len(case["ops"]) > 1)
    for j, o in enumerate(["forward", "sample", "forward-nan", "evidence", "mpe", "diff-evidence", "class", "evidence-other-batch", "diff", "scopes"]):
        op = {"op": o, "s": case["probe"] + j, "seed": 3}
        try:
            got = call(m, cfg, op)
        except Exception as e:
            t.fail(f"after the history, {o} raises {type(e).__name__}: {str(e)[:200]}")
        t.ok(torch.equal(torch.nan_to_num(got.detach()), torch.nan_to_num(call(fresh(), cfg, op).detach())),
             f"after the history ({[o['op'] + ('!' if 'fault' in o else '') for o in case['ops']]}), {o} returns another result than on a fresh model")
    torch.set_grad_enabled(True)


# ------------------------------------------------------------ convolutional circuits and mixtures
OPS = ["classes", "ll", "ll-nan", "ll-scopes", "no-grad", "sample", "leaves", "temps", "evidence", "evidence-one", "scopes", "mpe", "mpe-none", "bad-channels", "bad-scope", "bad-type", "bad-temp"]


@st.composite
def st_other(draw):
    case = draw(st_net(kinds=("conv", "mixture")))
    op = st.fixed_dictionaries({"op": st.sampled_from(OPS), "s": st.integers(0, 999), "seed": st.sampled_from([None, 0, 7]), "fault": st.sampled_from([None] * 3 + [0, 2, 5, 11]),
                                "meth": st.sampled_from(["forward", "sample"]), "after": st.integers(0, 1)})
    up = st.fixed_dictionaries({"op": st.sampled_from(UPDATES), "s": st.integers(0, 999)})
    case.update(ops=draw(st.lists(st.one_of(op, op, op, up), min_size=1, max_size=7)), probe=draw(st.integers(0, 999)), grad=draw(st.booleans()))
    return case


def ask(net, m, op, given=None):
    cfg, o = net.cfg, op["op"]
    n = 1 + op["s"] % 4
    x = gen.random_states(cfg, n, op["s"])
    ev = x.masked_fill(torch.rand(x.shape, generator=torch.Generator().manual_seed(op["s"])) < 0.5, NAN)
    s = list(dict.fromkeys([op["s"] % cfg["F"], 0, op["s"] // 7 % cfg["F"]][: 1 + op["s"] % 3]))
    kw = {"marginalized_scope" if net.kind == "mixture" else "marginalized_scopes": s}
    v, e = net.shape(x), net.shape(ev)
    K = cfg.get("K", 1) if net.kind == "mixture" else 1
    classes = [(op["s"] + i) % K for i in range(n)]
    if given is not None:
        given += [(v, v.clone()), (e, e.clone()), (s, list(s)), (classes, list(classes))]
    if o == "classes":
        return m.sample(num_samples=n, class_index=classes, seed=op["seed"]) if K > 1 else m.sample(num_samples=n, seed=op["seed"])
    if o == "ll":
        return m(v)
    if o == "ll-nan":
        return m(e)
    if o == "ll-scopes":
        return m(v, **kw)
    if o == "no-grad":
        with torch.no_grad():
            return m(v)
    if o == "sample":
        return m.sample(num_samples=n, seed=op["seed"])
    if o == "leaves":
        return m.sample(num_samples=n, seed=op["seed"], mpe_at_leaves=True)
    if o == "temps":
        return m.sample(num_samples=n, seed=op["seed"], temperature_leaves=0.3, temperature_sums=3.0)
    if o == "evidence":
        return m.sample(evidence=e, seed=op["seed"])
    if o == "evidence-one":
        return m.sample(evidence=e[:1].expand(6, *e.shape[1:]), seed=op["seed"])
    if o == "scopes":
        return m.sample(evidence=v, marginalized_scopes=s, seed=op["seed"])
    if o == "mpe":
        return m.sample(evidence=e, is_mpe=True)
    if o == "mpe-none":
        return m.sample(num_samples=1, is_mpe=True)
    if o == "bad-channels":
        return m.sample(evidence=torch.cat([e, e, e], 1), seed=op["seed"])
    if o == "bad-scope":
        return m.sample(evidence=v, marginalized_scopes=[cfg["F"] + 5], seed=op["seed"])
    if o == "bad-type":
        return m.sample(evidence="nothing", seed=op["seed"])
    return m.sample(evidence=e, temperature_sums="hot", seed=op["seed"])


def run_other(case, t):
    net = Net(case)
    m = net.m
    lab(case, t)
    t.nontrivial(busy(case) and len(case["ops"]) > 1)
    nan = lambda a: torch.nan_to_num(a.detach())
    snap0 = snapshot(m)

    def fresh():
        f = Net(case).m
        f.load_state_dict(m.state_dict())
        return f

    def compare(op, got, what):
        f = fresh()
        gen.seed_all(op["s"])
        exp = ask(net, f, op)
        t.ok(torch.equal(nan(got), nan(exp)), f"{what} returns another result than on a fresh model")

    with torch.set_grad_enabled(case["grad"]):
        for i, op in enumerate(case["ops"]):
            t.label(op["op"])
            if op["op"] in UPDATES:
                update(m, op)
                snap0 = snapshot(m)
                continue
            undo = with_fault(m, op) if op["fault"] is not None else None
            gen.seed_all(op["s"])
            before, err, given = rng(), None, []
            kept = hold_grads(m)
            try:
                out = ask(net, m, op, given)
            except Exception as e:
                err = e
            finally:
                if undo:
                    undo()
            after = rng()
            what = f"call {i} ({op['op']}{' with an injected fault' if undo else ''}{', seeded' if op['seed'] is not None else ''})"
            for a, b in given:
                t.ok(a == b if isinstance(a, list) else torch.equal(torch.nan_to_num(a, 123.0), torch.nan_to_num(b, 123.0)), f"{what} modified an argument of the caller's")
            t.ok(kept(), f"{what} changed the gradients that wait for an optimiser step")
            if op["op"].startswith(("ll", "no-grad")) or op["seed"] is not None and not op["op"].startswith("mpe"):
                t.ok(torch.equal(before[0], after[0]) and before[1] == after[1] and np.array_equal(before[2], after[2]), f"{what} changed the global random state")
            snap1 = snapshot(m)
            t.ok(set(snap0[0]) == set(snap1[0]) and all(torch.equal(snap0[0][k], snap1[0][k]) for k in snap0[0]), f"{what} changed a parameter or buffer")
            t.ok(snap0[1] == snap1[1] and snap0[2] == snap1[2], f"{what} changed the training mode or requires_grad")
            t.ok(torch.is_grad_enabled() == case["grad"], f"{what} left the gradient mode changed")
            if err is None and undo is None and not op["op"].startswith("bad"):
                compare(op, out, what)
            elif err is not None and undo is None and not op["op"].startswith("bad"):
                raise err
        for j, o in enumerate(["ll", "sample", "ll-nan", "evidence", "mpe", "scopes", "mpe-none", "evidence-one"]):
            op = {"op": o, "s": case["probe"] + j, "seed": 3}
            compare(op, ask(net, m, op), f"after the history ({[o['op'] + ('!' if o.get('fault') is not None else '') for o in case['ops']]}), {o}")


SUBS = [Sub("others", st_other, run_other, quick=500, desc="the same for convolutional circuits and mixtures"),
        Sub("histories", st_case, run, quick=1500,
            desc="random histories (valid, invalid, interrupted), every result and the model's state compared with a fresh model")]
