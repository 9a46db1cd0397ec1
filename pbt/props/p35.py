"""P35: the training programs optimise and report the likelihoods they name, on the circuit their configuration describes."""
import contextlib
import copy
import io
import json
import math
import os
import re
import runpy
import shutil
import sys
import tempfile
import types

import torch
from hypothesis import strategies as st
from torch.optim.optimizer import register_optimizer_step_post_hook
from torch.utils.data import DataLoader, TensorDataset

from .. import env, gen
from ..core import Sub

RULE = ("A case is a configuration (data set shape, circuit size and structure, leaf distribution, bit depth, classes, mixture), a few random "
        "rows, a batch size, a learning rate and a number of epochs. Non-trivial: at least one optimiser step on at least two batches, or "
        "(factories) a circuit with sums.")
ASSUMPTIONS = ["data loaders, the wandb logger and the hydra run directory are stand-ins; training itself (Lightning, torch optimisers) is real",
               "optimisation is judged step by step: the gradient used, at the parameters before the step, against that of the named loss (no comparison of trajectories, which Adam makes chaotic); the update rule itself is torch's",
               "main.py trains in mixed precision (bfloat16 on CPU): its script mode is compared to 3 %",
               "classification is trained with Einets only (ConvPc and Mixture offer no posterior)"]
SHAPES = {"wine": (1, 13, 1), "digits": (1, 8, 8), "breast_cancer": (1, 30, 1), "synth-2-clusters": (1, 2, 1), "cifar": (3, 32, 32),
          "mnist-16": (1, 16, 16), "nltcs": (1, 16, 1)}


@contextlib.contextmanager
def quiet():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out


@contextlib.contextmanager
def patched(*items):
    """items: (object, attribute, value); attributes that do not exist are left alone."""
    old = []
    try:
        for o, a, v in items:
            if hasattr(o, a):
                old.append((o, a, getattr(o, a)))
                setattr(o, a, v)
        yield
    finally:
        for o, a, v in reversed(old):
            setattr(o, a, v)


def pixel_data(sh, n, K, seed):
    g = torch.Generator().manual_seed(seed)
    k = torch.randint(256, (n, *sh), generator=g)
    return k, k.float() / 255, torch.randint(K, (n,), generator=g)


def close(a, b, rel=1e-3, ab=1e-3):
    a, b = a.double(), b.double()
    return a.shape == b.shape and bool(((a - b).abs() <= ab + rel * b.abs()).all())


# ------------------------------------------------------------ factories
@st.composite
def st_factory(draw):
    model = draw(st.sampled_from(["einet", "einet", "convpc"]))
    mixture = draw(st.integers(0, 3)) == 0
    ds = draw(st.sampled_from(["digits", "mnist-16", "cifar"] if model == "convpc" else ["wine", "digits", "breast_cancer", "synth-2-clusters", "cifar", "mnist-16", "nltcs"]))
    F = SHAPES[ds][1] * SHAPES[ds][2]
    return {
        "model": model, "ds": ds, "mixture": mixture, "K": draw(st.integers(1, 4)), "D": draw(st.integers(0, min(4, int(math.log2(F))))),
        "S": draw(st.integers(1, 3)), "I": draw(st.integers(1, 3)), "R": draw(st.integers(1, 3)), "struct": draw(st.sampled_from(gen.STRUCTS)),
        "dropout": draw(st.sampled_from([0.0, 0.0, 0.4])), "dist": draw(st.sampled_from(["normal", "normal_rat", "binomial", "categorical"])),
        "bits": draw(st.sampled_from([8, 8, 1, 3, 5])), "min": draw(st.sampled_from([0.01, 0.1])), "max": draw(st.sampled_from([1.0, 2.0])),
        "ch": draw(st.lists(st.integers(1, 3), min_size=2, max_size=3)), "order": draw(st.sampled_from(["sum-prod", "prod-sum"])),
        "cstruct": draw(st.sampled_from(["top-down", "bottom-up"])), "seed": draw(gen.SEED), "n": draw(st.integers(1, 3)), "epochs": draw(st.integers(1, 30)),
        "lr": draw(st.sampled_from([1e-3, 0.05, 0.3])), "enum": draw(st.booleans()), "lit": draw(st.booleans()), "train": draw(st.booleans()),
    }


def conf(case, **over):
    from omegaconf import OmegaConf

    from simple_einet.dist import Dist

    c = dict(dataset=case["ds"], dist=Dist[case["dist"].upper()] if case.get("enum", True) else case["dist"], epochs=case["epochs"], tag=None,
             model=case["model"], num_classes=case["K"], dropout=case["dropout"], mixture=case["mixture"], n_bits=case["bits"], lr=case["lr"],
             min_sigma=case["min"], max_sigma=case["max"], multivariate_cardinality=2,
             einet=dict(D=case["D"], S=case["S"], I=case["I"], R=case["R"], layer_type=case["struct"][1], structure=case["struct"][0]),
             convpc=dict(channels=list(case["ch"]), order=case["order"], structure=case["cstruct"], kernel_size=2))
    c.update(over)
    return OmegaConf.create(c)


def direct(case):
    """The circuit the configuration describes, built without the factories."""
    from simple_einet.conv_pc import ConvPc, ConvPcConfig
    from simple_einet.data import Shape
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.normal import Normal, RatNormal
    from simple_einet.mixture import Mixture

    C, H, W = SHAPES[case["ds"]]
    cls, kw = {"normal": (Normal, {}), "normal_rat": (RatNormal, {"min_sigma": case["min"], "max_sigma": case["max"]}),
               "binomial": (Binomial, {"total_count": 2 ** case["bits"] - 1}), "categorical": (Categorical, {"num_bins": 2 ** case["bits"]})}[case["dist"]]
    if case["model"] == "einet":
        cfg = EinetConfig(num_features=H * W, num_channels=C, depth=case["D"], num_sums=case["S"], num_leaves=case["I"], num_repetitions=case["R"],
                          num_classes=case["K"], leaf_type=cls, leaf_kwargs=kw, dropout=case["dropout"], layer_type=case["struct"][1], structure=case["struct"][0])
        return Mixture(n_components=case["K"], config=cfg) if case["mixture"] else Einet(cfg)
    cfg = ConvPcConfig(channels=list(case["ch"]), num_channels=C, num_classes=case["K"], leaf_type=cls, leaf_kwargs=kw, structure=case["cstruct"],
                       order=case["order"], kernel_size=2)
    return Mixture(n_components=case["K"], config=cfg, data_shape=Shape(C, H, W)) if case["mixture"] else ConvPc(config=cfg, data_shape=Shape(C, H, W))


def target(case, img_levels):
    """What the circuit must see for images of the given levels (None: the image itself)."""
    if case["dist"] in ("binomial", "categorical"):
        return (img_levels // 2 ** (8 - case["bits"])).float()
    return None


def run_factory(case, t):
    import models_pl

    C, H, W = SHAPES[case["ds"]]
    gen.seed_all(case["seed"])
    want = direct(case)
    gen.seed_all(case["seed"])
    c = conf(case)
    if case["lit"]:
        lit = models_pl.SpnGenerative(c, 3)
        got = lit.spn
    else:
        got = (models_pl.make_einet if case["model"] == "einet" else models_pl.make_convpc)(c, num_classes=case["K"])
    t.label(case["model"], "mixture" if case["mixture"] else "single", case["dist"], case["ds"])
    t.nontrivial(case["D"] > 0 or case["model"] == "convpc")
    t.ok(type(got) is type(want), f"the factory builds a {type(got).__name__}, expected {type(want).__name__}")
    a, b = got.state_dict(), want.state_dict()
    skip = ("mixture_weights", "centroids")
    t.ok(list(a) == list(b) and all(a[k].shape == b[k].shape and (k in skip or torch.equal(a[k], b[k])) for k in a),
         lambda: "parameters differ from the described circuit: " + str([(k, tuple(a[k].shape) if k in a else None, tuple(b[k].shape) if k in b else None)
                                                                         for k in {**a, **b} if k not in skip and (k not in a or k not in b or a[k].shape != b[k].shape or not torch.equal(a[k], b[k]))][:3]))
    k, img, _ = pixel_data((C, H, W), case["n"], 2, case["seed"])
    x = target(case, k)
    x = img if x is None else x
    outs = []
    for m in (got, want):
        m.train(case["train"])
        if case["mixture"]:
            m.initialize(data=img + 0.0 if len(img) >= case["K"] else img.repeat(case["K"], 1, 1, 1) + torch.arange(len(img) * case["K"]).view(-1, 1, 1, 1) * 1e-3)
        gen.seed_all(case["seed"] + 1)
        with torch.no_grad():
            outs.append(m(x))
    t.ok(torch.equal(*outs), f"log-likelihoods {outs[0].flatten()[:3].tolist()}, the described circuit has {outs[1].flatten()[:3].tolist()}")
    if not case["lit"]:
        return
    got.eval()
    pre = lit.preprocess(img.clone())
    t.ok(pre.shape == x.shape and bool((pre.double() == x.double()).all()), f"preprocessing maps levels {k.flatten()[:4].tolist()} to {pre.flatten()[:4].tolist()}, expected {x.flatten()[:4].tolist()}")
    for diff in (False, True):
        if diff and (case["model"] == "convpc" or case["mixture"] or case["dist"] != "normal"):
            continue
        with torch.no_grad():
            gen.seed_all(case["seed"] + 2)
            s = lit.generate_samples(num_samples=5, differentiable=diff)
            gen.seed_all(case["seed"] + 2)
            r = got.sample(num_samples=5, mpe_at_leaves=True, **({"is_differentiable": True} if diff else {}))
        t.ok(tuple(s.shape) == (5, C, H, W), f"samples of shape {tuple(s.shape)}")
        t.ok(bool(torch.isfinite(s).all()), "samples not finite")
        if case["bits"] == 8 or case["dist"] not in ("binomial", "categorical"):
            t.ok(close(s, r.reshape(s.shape) / 255.0, 1e-5, 1e-6), "generated samples are not the scaled samples of the circuit")
    (opt,), (sched,) = lit.configure_optimizers()
    t.ok(isinstance(opt, torch.optim.Adam), f"optimiser {type(opt).__name__}")
    ids = [id(p) for gr in opt.param_groups for p in gr["params"]]
    t.ok(sorted(ids) == sorted(id(p) for p in lit.parameters()), "the optimiser does not hold all parameters once")
    E = case["epochs"]
    for e in range(min(E, 30)):
        w = case["lr"] * 0.1 ** sum(e >= m for m in (int(0.7 * E), int(0.9 * E)))
        lr = opt.param_groups[0]["lr"]
        t.ok(abs(lr - w) <= 1e-6 * w, f"epoch {e} of {E}: learning rate {lr}, expected {w}")
        opt.step()
        sched.step()


# ------------------------------------------------------------ main.train / main.test
@st.composite
def st_loop(draw):
    kinds = ["normal", "normal_rat", "binomial", "categorical"]
    dist = draw(st.sampled_from(kinds))
    cls = draw(st.integers(0, 2)) == 0
    return {
        "dist": dist, "bits": draw(st.sampled_from([8, 1, 3, 5])), "C": draw(st.sampled_from([1, 1, 3])), "H": draw(st.integers(1, 4)), "W": draw(st.integers(2, 4)),
        "D": draw(st.integers(0, 1)), "S": draw(st.integers(1, 3)), "I": draw(st.integers(1, 3)), "R": draw(st.integers(1, 3)),
        "struct": draw(st.sampled_from(gen.STRUCTS)), "K": draw(st.integers(2, 4)) if cls else draw(st.sampled_from([1, 1, 3])), "cls": cls,
        "n": draw(st.integers(1, 11)), "bs": draw(st.integers(1, 5)), "lr": draw(st.sampled_from([0.05, 0.3, 0.01])), "opt": draw(st.sampled_from(["sgd", "adam"])),
        "mode": draw(st.sampled_from(["plain", "plain", "debug", "dry"])), "li": draw(st.integers(1, 4)), "seed": draw(gen.SEED), "epochs": draw(st.integers(1, 2)),
    }


def small_model(case):
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.normal import Normal, RatNormal

    nb = 2 ** case["bits"]
    cls, kw = {"normal": (Normal, {}), "normal_rat": (RatNormal, {"min_sigma": 0.1, "max_sigma": 2.0}), "binomial": (Binomial, {"total_count": nb - 1}),
               "categorical": (Categorical, {"num_bins": nb})}[case["dist"]]
    gen.seed_all(case["seed"])
    m = Einet(EinetConfig(num_features=case["H"] * case["W"], num_channels=case["C"], depth=case["D"], num_sums=case["S"], num_leaves=case["I"],
                          num_repetitions=case["R"], num_classes=case["K"], leaf_type=cls, leaf_kwargs=kw, layer_type=case["struct"][1], structure=case["struct"][0]))
    gen.perturb(m, case["seed"], 1.0, 0.5)
    return m, nb


def mean_loss(ll, y, cls):
    if cls:
        return -(torch.log_softmax(ll, 1)[torch.arange(len(y)), y]).mean()
    return -(torch.logsumexp(ll, 1) - math.log(ll.shape[1])).mean()


class Steps:
    """Records every optimiser step: gradients used, learning rate, parameters afterwards."""

    def __init__(self, model_of):
        self.model_of, self.rec = model_of, []

    def __call__(self, opt, args, kwargs):
        m = self.model_of()
        ids = {id(p) for gr in opt.param_groups for p in gr["params"]}
        self.rec.append({"opt": opt, "lr": opt.param_groups[0]["lr"], "held": all(id(p) in ids for p in m.parameters() if p.requires_grad),
                         "grad": {k: None if p.grad is None else p.grad.detach().clone() for k, p in m.named_parameters()},
                         "after": {k: v.detach().clone() for k, v in m.state_dict().items()}})


def check_step(t, i, ref, before, rec, x, loss):
    """The gradient of a recorded step is that of the expected loss at the parameters before it. Returns the expected loss."""
    t.ok(rec["held"], "the optimiser does not hold all parameters")
    ref.load_state_dict(before)
    ref.train()
    ref.zero_grad()
    ll = ref(x)
    scale, ps = 0.0, [p for p in ref.parameters() if p.requires_grad]
    for v in ll.flatten():  # what a single log-likelihood contributes, before anything cancels
        gs = torch.autograd.grad(v, ps, retain_graph=True, allow_unused=True)
        scale = max([scale] + [float(g.abs().max()) for g in gs if g is not None])
    scale *= 2e-5 + 1e-6 * float(ll.detach().abs().max())
    l = loss(ref(x))
    l.backward()
    gs = {k: p.grad for k, p in ref.named_parameters()}
    top = max([float(g.abs().max()) for g in gs.values() if g is not None] + [0.0])
    for k, g in gs.items():
        h = rec["grad"][k]
        g = torch.zeros(()) if g is None else g
        h = torch.zeros(()) if h is None else h
        t.ok(bool(((g - h).abs() <= 2e-4 * top + scale + 1e-6).all()),
             lambda: f"step {i}: gradient of {k} {h.flatten()[:3].tolist()}, the loss has {g.expand_as(h).flatten()[:3].tolist()}")
    return float(l)


class Seen:
    """Records the batches that reach a module."""

    def __init__(self, m):
        self.x = []
        self.h = m.register_forward_pre_hook(self, with_kwargs=True)

    def __call__(self, mod, args, kwargs):
        x = args[0] if args else kwargs["x"]
        self.x.append((x.detach().clone(), mod.training))


def run_loop(case, t):
    import main

    m, nb = small_model(case)
    gauss = case["dist"] in ("normal", "normal_rat")
    sh = (case["C"], case["H"], case["W"])
    k, img, y = pixel_data(sh, case["n"], case["K"], case["seed"])
    bins = (k // 2 ** (8 - case["bits"])).double()
    loader = DataLoader(TensorDataset(img, y), batch_size=case["bs"])
    nbatch = len(loader)
    args = types.SimpleNamespace(debug=case["mode"] == "debug", classification=case["cls"], log_interval=case["li"], dry_run=case["mode"] == "dry")
    ref = copy.deepcopy(m)
    o = torch.optim.SGD(m.parameters(), lr=case["lr"] * 0.1) if case["opt"] == "sgd" else torch.optim.Adam(m.parameters(), lr=case["lr"])
    steps = Steps(lambda: m)
    o.register_step_post_hook(steps)
    before_sd = copy.deepcopy(m.state_dict())
    m.eval()
    seen = Seen(m)
    back = []
    fabric = types.SimpleNamespace(backward=lambda l: (back.append(float(l)), l.backward()))
    for a, v in (("args", args), ("n_bits", case["bits"]), ("n_bins", nb), ("has_gauss_dist", gauss), ("fabric", fabric)):
        setattr(main, a, v)
    t.label(case["dist"], case["struct"][0], case["mode"], "classes" if case["cls"] else "density", case["opt"])
    t.nontrivial(nbatch > 1)
    per = {"plain": nbatch, "debug": min(nbatch, 3), "dry": 1}[case["mode"]]
    before = img.clone()
    with quiet():
        for e in range(case["epochs"]):
            main.train(args, m, torch.device("cpu"), loader, o, e + 1)
    t.ok(m.training, "training leaves the model in evaluation mode")
    t.ok(torch.equal(img, before), "training changed the data")
    t.ok(len(steps.rec) == len(back) == per * case["epochs"], f"{len(back)} optimiser steps on {nbatch} batches in {case['epochs']} epochs ({case['mode']})")
    # batches the model saw (one or more forward passes per step)
    t.ok(seen.x and len(seen.x) % len(back) == 0 and all(tr for _, tr in seen.x), "forward passes in training are not in training mode")
    rep = len(seen.x) // len(back)
    for i in range(len(back)):
        lo = (i % per) * case["bs"]
        rows = slice(lo, lo + case["bs"])
        x = seen.x[i * rep][0]
        d = (x.double() + 0.5) * nb - bins[rows] if gauss else x.double() - bins[rows]
        t.ok(x.shape == img[rows].shape and bool((d > -1e-3).all() and (d < 1 + 1e-3).all()) and (gauss or bool((d == 0).all())),
             f"step {i}: the model is not trained on the preprocessed batch")
        if gauss and x.numel() > 8:
            t.ok(len(set(d.flatten().mul(1e4).round().tolist())) > 2, "training data are not dequantised")
        loss = check_step(t, i, ref, before_sd, steps.rec[i], x, lambda ll: mean_loss(ll, y[rows], case["cls"]))
        t.ok(abs(back[i] - loss) <= 1e-3 + 1e-4 * abs(loss), f"step {i}: loss {back[i]}, expected {loss} on {'labels' if case['cls'] else 'rows'}")
        before_sd = steps.rec[i]["after"]
    t.ok(all(torch.equal(v, before_sd[k]) for k, v in m.state_dict().items()), "parameters change outside of the optimiser steps")


@st.composite
def st_eval(draw):
    c = draw(st_loop())
    c["tag"] = draw(st.sampled_from(["Test", "Train", "Val"]))
    return c


def run_eval(case, t):
    import main

    m, nb = small_model(case)
    gauss = case["dist"] in ("normal", "normal_rat")
    sh = (case["C"], case["H"], case["W"])
    k, img, y = pixel_data(sh, case["n"], case["K"], case["seed"])
    bins = (k // 2 ** (8 - case["bits"])).double()
    loader = DataLoader(TensorDataset(img, y), batch_size=case["bs"])
    for a, v in (("args", types.SimpleNamespace(debug=False, classification=case["cls"], log_interval=1, dry_run=False)), ("n_bits", case["bits"]), ("n_bins", nb),
                 ("has_gauss_dist", gauss)):
        setattr(main, a, v)
    t.label(case["dist"], "classes" if case["cls"] else "density", "single-row batch" if case["n"] % case["bs"] == 1 or case["bs"] == 1 else "batches")
    t.nontrivial(len(loader) > 1)
    sd = copy.deepcopy(m.state_dict())
    m.train()
    seen = Seen(m)
    with quiet() as out:
        main.test(m, torch.device("cpu"), loader, case["tag"])
    seen.h.remove()
    txt = out.getvalue()
    t.ok(all(torch.equal(v, sd[k]) for k, v in m.state_dict().items()), "evaluation changed the model")
    t.ok(not m.training and not any(tr for _, tr in seen.x), "evaluation does not switch to evaluation mode")
    r = re.search(case["tag"] + r" set: Average loss: (-?[\d.]+)", txt)
    t.ok(r is not None, f"no average loss reported for the {case['tag']} set: {txt!r}")
    x = torch.cat([s[0] for s in seen.x]).double()
    d = (x + 0.5) * nb - bins if gauss else x - bins
    t.ok(x.shape == img.shape and bool((d > -1e-3).all() and (d < 1 + 1e-3).all()), "the model is not evaluated on the preprocessed data, once each")
    with torch.no_grad():
        ll = m(torch.cat([s[0] for s in seen.x])).double()
    w = float(-(torch.logsumexp(ll, 1) - math.log(case["K"])).mean())
    t.ok(abs(float(r[1]) - w) <= 1e-3 + 1e-4 * abs(w), f"reported average loss {r[1]}, average negative log-likelihood {w}")
    if case["cls"]:
        r = re.search(r"Accuracy: ([\d.]+)", txt)
        t.ok(r is not None, f"no accuracy reported: {txt!r}")
        b2 = ll.topk(2, 1)[0]
        clear = b2[:, 0] - b2[:, 1] > 1e-3
        hit = ll.argmax(1) == y
        lo, hi = (100.0 * float(v.double().mean()) for v in (hit & clear, hit | ~clear))
        t.ok(lo - 0.01 <= float(r[1]) <= hi + 0.01, f"reported accuracy {r[1]}, expected {lo}..{hi}")


# ------------------------------------------------------------ main_pl.main
@st.composite
def st_pipeline(draw):
    model = draw(st.sampled_from(["einet", "einet", "einet", "convpc"]))
    mixture = draw(st.integers(0, 3)) == 0
    cls = model == "einet" and not mixture and draw(st.integers(0, 2)) == 0
    ds = "digits" if model == "convpc" else draw(st.sampled_from(["wine", "digits", "synth-2-clusters"]))
    K = draw(st.integers(2, 3)) if cls or mixture else draw(st.sampled_from([1, 1, 2]))
    dist = draw(st.sampled_from(["normal", "normal_rat", "binomial", "categorical", "normal"]))
    return {
        "model": model, "mixture": mixture, "cls": cls, "ds": ds, "K": K if model == "einet" or mixture else 1, "D": draw(st.integers(0, 1 if ds.startswith("s") else 3)),
        "S": draw(st.integers(1, 3)), "I": draw(st.integers(1, 3)), "R": draw(st.integers(1, 2)), "struct": draw(st.sampled_from(gen.STRUCTS)), "dropout": 0.0,
        "dist": dist, "bits": draw(st.sampled_from([8, 2, 4])), "min": 0.1, "max": 2.0, "ch": [2, 3], "order": draw(st.sampled_from(["sum-prod", "prod-sum"])),
        "cstruct": draw(st.sampled_from(["top-down", "bottom-up"])), "seed": draw(gen.SEED), "n": draw(st.integers(4, 9)), "bs": draw(st.integers(2, 5)),
        "epochs": draw(st.integers(1, 11)), "lr": draw(st.sampled_from([0.02, 0.1])),
        "init": dist == "normal" and model == "einet" and draw(st.booleans()),
    }


def run_pipeline(case, t):
    import lightning.pytorch as pl
    from lightning.pytorch.loggers.logger import Logger
    from omegaconf import OmegaConf

    import main_pl
    import simple_einet.data as D

    C, H, W = SHAPES[case["ds"]]
    gauss = case["dist"] in ("normal", "normal_rat")
    sets = []
    for i, n in enumerate((case["n"], 3, 4)):
        k, img, y = pixel_data((C, H, W), n, case["K"], case["seed"] + i)
        sets.append((k, img * 3 + 2 if gauss else img, y))
    calls = []

    def build(*a, **kw):
        calls.append(kw)
        return tuple(DataLoader(TensorDataset(img, y), batch_size=case["bs"]) for _, img, y in sets)

    class Log(Logger):
        name, version = "x", 0

        def __init__(self, *a, **k):
            super().__init__()
            self.m, self.images = [], []

        def log_metrics(self, metrics, step=None):
            self.m.append(dict(metrics))

        def log_hyperparams(self, *a, **k):
            pass

        def log_image(self, key, images, **k):
            self.images.append((key, images))

    logs = []

    def mklog(*a, **k):
        logs.append(Log())
        return logs[-1]

    start = {}
    real_fit = pl.Trainer.fit

    def fit(self, *a, **k):
        mod = k["model"] if "model" in k else a[0]
        start["spn"], start["mod"] = copy.deepcopy(mod.spn), mod
        return real_fit(self, *a, **k)

    run = tempfile.mkdtemp(prefix="p35-")
    steps = Steps(lambda: start["mod"].spn)
    c = conf(case, dist=case["dist"], tag="t", group_tag="g", seed=case["seed"], data_dir=run, results_dir=run, precision="32", profiler=None, wandb=False,
             batch_size=case["bs"], num_workers=0, load_and_eval=False, classification=case["cls"], torch_compile=False, init_leaf_data=case["init"],
             swa=False, debug=False, project_name="p", gpu=0)
    hydra = types.SimpleNamespace(get=lambda: types.SimpleNamespace(runtime=types.SimpleNamespace(output_dir=run)))
    t.label(case["model"], "mixture" if case["mixture"] else "single", case["dist"], "classes" if case["cls"] else "density", "init" if case["init"] else "default init")
    t.nontrivial(True)
    keep = {k: os.environ.get(k) for k in ("WANDB_MODE", "PL_GLOBAL_SEED", "PL_SEED_WORKERS")}
    grad = torch.is_grad_enabled()
    try:
        with quiet(), patched((main_pl, "HydraConfig", hydra), (main_pl, "build_dataloader", build), (D, "build_dataloader", build),
                              (main_pl, "WandbLogger", mklog), (main_pl, "wandb", types.SimpleNamespace(Settings=lambda **k: None, finish=lambda: None)),
                              (main_pl, "RichProgressBar", pl.callbacks.Callback), (pl.Trainer, "fit", fit),
                              (main_pl, "plot_distribution", lambda *a, **k: None)):
            hook = register_optimizer_step_post_hook(steps)
            try:
                main_pl.main(c)
            finally:
                hook.remove()
        torch.set_grad_enabled(grad)
        lit, ref = start["mod"], start["spn"]
        m = lit.spn
        t.ok(calls and calls[0].get("dataset_name") == case["ds"] and calls[0].get("batch_size") == case["bs"] and not calls[0].get("loop")
             and calls[0].get("seed") == case["seed"] and bool(calls[0].get("normalize")) == gauss, f"data loaders requested with {calls}")
        xs = [(img if gauss else (k // 2 ** (8 - case["bits"])).float(), y) for k, img, y in sets]
        x, y = xs[0]
        if case["mixture"]:
            w = ref.mixture_weights
            t.ok(abs(float(w.sum()) - 1) < 1e-5 and bool((w >= 0).all()) and bool(torch.isfinite(ref.centroids).all()), f"mixture weights before training: {w.tolist()}")
            near = (ref.centroids.double() - (sets[0][1].flatten(1).double().mean(0) * ((2 ** case["bits"] - 1) if case["dist"] == "binomial" else 1))).abs()
            spread = (2 ** case["bits"] - 1) if case["dist"] == "binomial" else 3 if gauss else 1
            t.ok(bool((near <= spread + 1e-3).all()), "the mixture was not initialised from the data")
        if case["init"]:
            mu = [p for s, p in ref.named_parameters() if s.endswith("means")]
            t.ok(mu and all(bool(((p.mean((-1, -2)).flatten() - x.transpose(0, 1).reshape(C, len(x), -1).mean(1).flatten()).abs() < 1.5).all()) for p in mu),
                 "leaves were not initialised from the data")
        E, bs = case["epochs"], case["bs"]
        nb = -(-len(x) // bs)
        t.ok(len(steps.rec) == E * nb, f"{len(steps.rec)} optimiser steps in {E} epochs of {nb} batches")
        before = copy.deepcopy(ref.state_dict())
        for i, r in enumerate(steps.rec):
            e, j = divmod(i, nb)
            xx, yy = x[j * bs:(j + 1) * bs], y[j * bs:(j + 1) * bs]
            w = case["lr"] * 0.1 ** sum(e >= q for q in (int(0.7 * E), int(0.9 * E)))
            t.ok(type(r["opt"]) is torch.optim.Adam and abs(r["lr"] - w) <= 1e-6 * w, f"step {i} (epoch {e} of {E}): {type(r['opt']).__name__} with learning rate {r['lr']}, expected Adam with {w}")
            check_step(t, i, ref, before, r, xx, lambda ll: mean_loss(ll, yy, True) if case["cls"] else -ll.mean())
            before = r["after"]
        t.ok(all(torch.equal(v, before[k]) for k, v in m.state_dict().items()), "parameters change outside of the optimiser steps")
        m.eval()
        with torch.no_grad():
            for j, nm in enumerate(("train", "val", "test")):
                xx, yy = xs[j]
                a = m(xx)
                key = f"Test/{nm}_" + ("accuracy" if case["cls"] else "nll")
                got = [r[key] for r in logs[0].m if key in r]
                t.ok(len(got) == 1, f"{key} reported {len(got)} times")
                if case["cls"]:
                    b2 = a.topk(2, 1)[0]
                    clear = b2[:, 0] - b2[:, 1] > 1e-3
                    hit = a.argmax(1) == yy
                    lo, hi = float((hit & clear).double().mean()), float((hit | ~clear).double().mean())
                    t.ok(lo - 1e-4 <= float(got[0]) <= hi + 1e-4, f"{key} = {float(got[0])}, expected {lo}..{hi}")
                else:
                    w = float(-a.double().mean())
                    t.ok(abs(float(got[0]) - w) <= 1e-2 + 1e-4 * abs(w), f"{key} = {float(got[0])}, expected {w}")
            vals = [r["Val/loss"] for r in logs[0].m if "Val/loss" in r]
            t.ok(len(vals) == E, f"validation loss reported {len(vals)} times in {E} epochs")
            w = float(mean_loss(m(xs[1][0]), xs[1][1], True)) if case["cls"] else float(-m(xs[1][0]).double().mean())
            if not (case["cls"] and case["bs"] < 3):
                t.ok(abs(float(vals[-1]) - w) <= 1e-2 + 1e-3 * abs(w), f"last validation loss {float(vals[-1])}, expected {w}")
        if not case["cls"]:
            t.ok(len(logs[0].images) == E and all(k == "samples" and len(im) == 1 and im[0].dim() == 3 for k, im in logs[0].images), "samples are not logged once per epoch")
        ck = torch.load(os.path.join(run, "model.pt"), weights_only=False)
        sd = {k[4:]: v for k, v in ck["state_dict"].items() if k.startswith("spn.")}
        t.ok(set(sd) == set(m.state_dict()) and all(torch.equal(v, m.state_dict()[k]) for k, v in sd.items()), "the checkpoint does not hold the trained parameters")
        saved = OmegaConf.load(os.path.join(run, "config.yaml"))
        t.ok(saved.dataset == case["ds"] and saved.lr == case["lr"] and saved.epochs == E and saved.seed == case["seed"], "the saved configuration differs from the one used")
        t.ok(c.run_dir == run and c.precision == 32, "run directory or precision of the configuration")
    finally:
        torch.set_grad_enabled(grad)
        shutil.rmtree(run, ignore_errors=True)
        for k, v in keep.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


# ------------------------------------------------------------ main.py as a script
@st.composite
def st_script(draw):
    return {"ds": draw(st.sampled_from(["digits", "digits", "mnist-16", "cifar"])), "dist": draw(st.sampled_from(["normal", "normal_rat", "binomial", "categorical"])),
            "bits": draw(st.sampled_from([8, 3, 5])), "D": draw(st.integers(0, 3)), "S": draw(st.integers(1, 3)), "I": draw(st.integers(1, 3)), "R": draw(st.integers(1, 2)),
            "struct": draw(st.sampled_from([["top-down", "linsum"], ["top-down", "einsum"], ["bottom-up", "linsum"]])), "cls": draw(st.integers(0, 3)) == 0,
            "n": draw(st.integers(2, 7)), "bs": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10**6)), "epochs": draw(st.integers(1, 2))}


def run_script(case, t):
    import torchvision

    import simple_einet.data as D

    sh = SHAPES[case["ds"]]
    sets = [pixel_data(sh, n, 10, case["seed"] + i) for i, n in enumerate((case["n"], 2, 3))]
    seeds = []

    def build(**kw):
        seeds.append(kw)
        return tuple(DataLoader(TensorDataset(img, y), batch_size=case["bs"]) for _, img, y in sets)

    home = tempfile.mkdtemp(prefix="p35-")
    saved = {}
    old_home, old_argv, path = os.environ.get("HOME"), sys.argv, list(sys.path)
    argv = ["main.py", "--dataset", case["ds"], "--device", "cpu", "--epochs", str(case["epochs"]), "--batch-size", str(case["bs"]), "-D", str(case["D"]), "-S", str(case["S"]),
            "-I", str(case["I"]), "-R", str(case["R"]), "--dist", case["dist"], "--n-bits", str(case["bits"]), "--seed", str(case["seed"]), "--layer", case["struct"][1],
            "--structure", case["struct"][0], "--lr", "0.05"] + (["--classification"] if case["cls"] else [])
    t.label(case["ds"], case["dist"], case["struct"][0], "classes" if case["cls"] else "density")
    t.nontrivial(True)
    def save(img, fp, **k):
        saved[os.path.basename(str(fp))] = img.detach().clone()

    def main(extra):
        saved.clear()
        sys.argv = argv + extra
        with quiet() as out:
            ns = runpy.run_path(os.path.join(env.REPO, "main.py"), run_name="__main__")
        return ns, out.getvalue()

    try:
        os.environ["HOME"] = home
        with patched((D, "build_dataloader", build), (torchvision.utils, "make_grid", lambda x, **k: x), (torchvision.utils, "save_image", save)):
            ns1, out1 = main(["--train"])
            t.ok(int(re.search(r"Number of parameters: (\d+)", out1)[1]) == sum(p.numel() for p in ns1["model"].parameters() if p.requires_grad), "number of parameters")
            first = dict(saved)
            ns2, out2 = main([])
    finally:
        sys.argv, sys.path[:] = old_argv, path
        if old_home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = old_home
    try:
        f = os.path.join(home, "results", "simple-einet", case["ds"], "model.pth")
        t.ok(os.path.exists(f), "the trained model was not saved")
        sd = torch.load(f)
        a = {k: v for k, v in ns1["model"].state_dict().items()}
        b = {k: v for k, v in ns2["model"].state_dict().items()}
        t.ok(set(sd) == set(a) == set(b) and all(torch.equal(sd[k], a[k]) and torch.equal(sd[k], b[k]) for k in sd), "saved, trained and reloaded parameters differ")
        m = ns2["model"]
        m = getattr(m, "_original_module", m)
        m.eval()
        cfgm = m.config
        want = dict(num_features=sh[1] * sh[2], num_channels=sh[0], depth=case["D"], num_sums=case["S"], num_leaves=case["I"], num_repetitions=case["R"],
                    num_classes=10 if case["cls"] else 1, layer_type=case["struct"][1], structure=case["struct"][0])
        t.ok(all(getattr(cfgm, k) == v for k, v in want.items()), lambda: f"circuit {cfgm}, expected {want}")
        nb = 2 ** case["bits"]
        gauss = case["dist"] in ("normal", "normal_rat")
        for (k, img, y), nm in zip(sets, ("Train", "Val", "Test")):
            v = re.search(nm + r" set: Average loss: (-?[\d.]+)", out2)
            t.ok(v is not None, f"no loss reported for the {nm} set")
            bins = (k // 2 ** (8 - case["bits"])).float()
            with torch.no_grad():
                ll = m(bins / nb - 0.5 + 0.5 / nb if gauss else bins)
            w = float(-(torch.logsumexp(ll.double(), 1) - math.log(ll.shape[1])).mean())
            t.ok(abs(float(v[1]) - w) <= 0.03 * abs(w) + 1.5, f"{nm} set: reported loss {v[1]}, negative log-likelihood {w}")
        if not case["cls"]:
            k, img, y = sets[2]
            g = min(case["bs"], len(k))
            bins = (k[:g] // 2 ** (8 - case["bits"])).double()
            for sv in (first, saved):
                gt = sv["ground_truth.png"].double()
                want = bins / nb - 0.5 if gauss else bins
                t.ok(gt.shape == want.shape and bool(((gt - want).abs() < 1e-5).all()), "the ground truth image is not the preprocessed test data")
                keep = sh[1] - round(sh[2] / 2)
                for key, v in sv.items():
                    if key.startswith("reconstructions"):
                        r = v.double() * (1 if gauss else nb)
                        t.ok(r.shape == want.shape and bool(torch.isfinite(r).all()), f"{key}: shape {tuple(r.shape)}")
                        t.ok(bool(((r - want)[:, :, sh[1] - keep:, :].abs() < 1e-3).all()), f"{key}: observed pixels were changed")
                    elif key.startswith("samples"):
                        t.ok(tuple(v.shape) == (100, *sh) and bool(torch.isfinite(v).all()), f"{key}: shape {tuple(v.shape)}")
                        if not gauss and "diff" not in key:
                            q = v.double() * nb
                            t.ok(bool(((q - q.round()).abs() < 1e-3).all() and (q > -1e-3).all() and (q < nb - 1 + 1e-3).all()), f"{key}: values are not bins")
                names = {"ground_truth.png"} | {f"{p}{d}{q}.png" for d in ("", "-diff") for p, qs in (("samples", ("", "-mpe-leaves")), ("reconstructions", ("", "-mpe-leaves")), ("mpe", ("",)), ("reconstructions_mpe", ("",))) for q in qs}
                t.ok(set(sv) == names, f"images {sorted(sv)}")
    finally:
        shutil.rmtree(home, ignore_errors=True)


# ------------------------------------------------------------ configuration defaults
@st.composite
def st_conf(draw):
    return {"given": draw(st.lists(st.sampled_from(["data_dir", "results_dir", "profiler", "tag", "group_tag", "seed"]), unique=True)),
            "missing": draw(st.booleans()), "precision": draw(st.sampled_from(["16", "32", "bf16", "bf16-mixed"])), "env": draw(st.booleans()),
            "dist": draw(st.sampled_from(["normal", "NORMAL", "normal_rat", "binomial", "Categorical", "multivariate_normal", "piecewise_linear"])), "v": draw(st.just(0) | st.integers(0, 99))}


def run_conf(case, t):
    from omegaconf import OmegaConf

    import main_pl
    from simple_einet.dist import Dist

    t.nontrivial(True)
    given = {k: (case["v"] if k == "seed" else "g%d" % case["v"]) for k in case["given"]}
    d = dict(given, precision=case["precision"], dist=case["dist"], lr=0.5)
    if case["missing"]:
        for k in ("data_dir", "results_dir", "profiler", "tag", "group_tag", "seed"):
            d.setdefault(k, "???")
    c = OmegaConf.create(d)
    keep = {k: os.environ.get(k) for k in ("HOME", "DATA_DIR", "RESULTS_DIR")}
    try:
        os.environ["HOME"] = "/home/h%d" % case["v"]
        for k in ("DATA_DIR", "RESULTS_DIR"):
            if case["env"]:
                os.environ[k] = "/e/" + k
            else:
                os.environ.pop(k, None)
        main_pl.preprocess_cfg(c)
    finally:
        for k, v in keep.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
    exp = {"data_dir": "/e/DATA_DIR" if case["env"] else "/home/h%d/data" % case["v"], "results_dir": "/e/RESULTS_DIR" if case["env"] else "/home/h%d/results" % case["v"],
           "profiler": None, "tag": None, "group_tag": None}
    exp.update(given)
    for k, v in exp.items():
        if k == "seed":
            continue
        t.ok(c[k] == v, f"{k} = {c[k]!r}, expected {v!r}")
    t.ok(c.seed == case["v"] if "seed" in given else isinstance(c.seed, int), f"seed {c.seed}")
    t.ok(c.precision == (int(case["precision"]) if case["precision"] in ("16", "32") else case["precision"]), f"precision {c.precision!r}")
    t.ok(c.dist == Dist[case["dist"].upper()] and c.lr == 0.5, f"dist {c.dist}")


SUBS = [
    Sub("factory", st_factory, run_factory, quick=400, desc="make_einet/make_convpc against directly built circuits; preprocessing, samples, optimiser, schedule"),
    Sub("loop", st_loop, run_loop, quick=600, desc="main.train against a reference optimisation of the batches the model saw"),
    Sub("eval", st_eval, run_eval, quick=600, desc="main.test: reported average loss and accuracy"),
    Sub("pipeline", st_pipeline, run_pipeline, quick=90, desc="main_pl.main end to end against a reference optimisation, reported metrics, checkpoint"),
    Sub("script", st_script, run_script, quick=60, desc="main.py as a script: train, save, reload, evaluate, reconstruct"),
    Sub("conf", st_conf, run_conf, quick=200, desc="defaults of the run configuration"),
]
