"""P13: class posteriors obey Bayes' rule; training losses are the likelihoods/posteriors they name."""
import math
import types

import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Sub

RULE = ("A case is a multi-class model (or a table of class log-likelihoods of any magnitude), a batch of inputs (in-distribution, "
        "extreme or partly missing) and labels. Non-trivial: at least two classes with different log-likelihoods on some row.")
ASSUMPTIONS = ["a row on which every class has zero likelihood has no posterior and is not generated",
               "rows whose two best classes tie to float accuracy may count either way in the accuracy"]
NAN = float("nan")
EPS = 2.0**-23
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")


def reference(ll):
    ll = ll.double()
    return ll - torch.logsumexp(ll, 1, keepdim=True)


def compare(t, got, ll, what):
    ref = reference(ll)
    t.ok(got.shape == ref.shape, f"{what}: shape {tuple(got.shape)}, expected {tuple(ref.shape)}")
    fin = torch.isfinite(ll).any(1)
    mag = ll.double().masked_fill(~torch.isfinite(ll), 0.0).abs().amax(1, keepdim=True)
    tol = 1e-5 + 8 * EPS * mag + 4 * EPS * ref.abs().nan_to_num(posinf=0.0)
    got = got.double()
    bad = fin[:, None] & ~(((got - ref).abs() <= tol) | (got == ref))
    t.ok(not bool(bad.any()), f"{what}: log-posterior {got[bad.any(1)][:2].tolist()}, Bayes' rule gives {ref[bad.any(1)][:2].tolist()}")
    s = torch.logsumexp(got, 1).abs()
    t.ok(bool((s <= tol.amax(1) + 1e-5)[fin].all()), f"{what}: posterior does not sum to one (log-sums {s[:4].tolist()})")


@st.composite
def st_model(draw):
    cfg = draw(gen.einet_cfg(wide="SIRKCFV", huge=True, kinds=ALL, max_states=None, max_F=12, max_C=2, max_I=4, max_S=4, max_R=3, min_K=2, max_K=5,
                             leaf_gains=(0.0, 1.0, 3.0)))
    return {"cfg": cfg, "n": draw(gen.rows(1, 6)), "xseed": draw(gen.SEED), "p": draw(st.sampled_from([0.0, 0.0, 0.3, 1.0])),
            "scale": draw(st.sampled_from([1.0, 1.0, 30.0, 1000.0])), "dim": draw(st.sampled_from([3, 3, 2, 4])),
            "train": draw(st.booleans())}


def run_model(case, t):
    cfg = case["cfg"]
    m = gen.build(cfg, train=case["train"])
    x = gen.random_states(cfg, case["n"], case["xseed"])
    if all(d is None for d in gen.domain(cfg)):
        x = x * case["scale"]
    mask = torch.rand(x.shape, generator=torch.Generator().manual_seed(case["xseed"])) < case["p"]
    x = x.masked_fill(mask, NAN)
    if case["dim"] == 2 and cfg["C"] == 1:
        x = x.squeeze(1)
    elif case["dim"] == 4:
        x = x.unsqueeze(-1)
    before = x.clone()
    with torch.no_grad():
        ll = m(x)
        got = m.posterior(x)
    t.label(*gen.labels(cfg), "missing" if mask.any() else "complete", "underflow" if bool((ll < -104).all(1).any()) else "moderate")
    t.nontrivial(bool(((ll - ll[:, :1]).abs() > 1e-6).any()))
    t.ok(bool(torch.isfinite(ll).all()), "log-likelihood not finite")
    t.ok(bool((torch.isnan(x) == torch.isnan(before)).all()) and bool((x == before)[~before.isnan()].all()), "the input was modified")
    compare(t, got, ll, "Einet.posterior")
    if mask.all():
        t.ok(bool((got + math.log(cfg["K"])).abs().max() < 1e-4), "posterior without any observation is not uniform")
    # posterior odds are the likelihood ratios of the single heads
    import main

    lse = main.log_likelihoods(ll)
    ref = torch.logsumexp(ll.double(), 1) - math.log(cfg["K"])
    mag = ll.double().abs().amax(1)
    t.ok(lse.reshape(-1).shape == ref.shape and bool(((lse.reshape(-1).double() - ref).abs() <= 1e-4 + 8 * EPS * mag).all()),
         f"main.log_likelihoods {lse.tolist()}, expected {ref.tolist()}")
    y = torch.randint(cfg["K"], (case["n"],), generator=torch.Generator().manual_seed(case["xseed"] + 1))
    per = main.log_likelihoods(ll, y)
    t.ok(torch.equal(per.reshape(-1), ll[torch.arange(case["n"]), y]), "main.log_likelihoods with targets does not pick the target's head")
    one = main.log_likelihoods(ll[:, :1])
    t.ok(torch.equal(one.reshape(-1), ll[:, 0]), "main.log_likelihoods of a single head is not that head")


@st.composite
def st_table(draw):
    if draw(st.integers(0, 7)) == 7:  # many classes or rows
        return {"many": [draw(gen.SEED), draw(st.sampled_from([1, 2, 7, 700, 5000])), draw(st.sampled_from([3, 65, 129, 257, 1000])),
                         draw(st.sampled_from([0.0, -200.0, -1e4, 300.0])), draw(st.sampled_from([0.1, 5.0, 80.0]))]}
    K = draw(st.integers(2, 12))
    n = draw(st.integers(1, 5))
    base = draw(st.sampled_from([0.0, -50.0, -200.0, -1e4, 300.0, 1e5]))
    v = st.floats(-80, 80, width=32)
    rows = [[draw(st.one_of(v, v, st.just(float("-inf")))) + base for _ in range(K)] for _ in range(n)]
    for r in rows:
        if all(u == float("-inf") for u in r):
            r[draw(st.integers(0, K - 1))] = base
    return {"rows": [["-inf" if u == float("-inf") else u for u in r] for r in rows]}


def run_table(case, t):
    from simple_einet.einet import posterior

    if "many" in case:
        seed, n, K, base, spread = case["many"]
        ll = base + spread * torch.randn(n, K, generator=torch.Generator().manual_seed(seed))
        t.label("many")
    else:
        ll = torch.tensor([[float(u) for u in r] for r in case["rows"]], dtype=torch.float32)
    t.nontrivial(bool((ll != ll[:, :1]).any()))
    compare(t, posterior(ll, ll.shape[1]), ll, "posterior(ll)")
    shifted = ll + 1000.0
    compare(t, posterior(shifted, ll.shape[1]), shifted, "posterior of shifted likelihoods")
    if torch.isfinite(ll).all():  # training on the posterior: d log p(y | x) / d ll = 1[y] - p(. | x), row by row
        v = ll.clone().requires_grad_()
        y = torch.arange(len(ll)) % ll.shape[1]
        posterior(v, ll.shape[1])[torch.arange(len(ll)), y].sum().backward()
        want = torch.nn.functional.one_hot(y, ll.shape[1]).double() - reference(ll).exp()
        tol = 1e-5 + 8 * EPS * float(ll.abs().max())
        t.ok(bool(((v.grad.double() - want).abs() <= tol).all()), lambda: f"gradient of the posterior {v.grad[:2].tolist()}, Bayes' rule gives {want[:2].tolist()}")


@st.composite
def st_wrapper(draw):
    ds = draw(st.sampled_from(["digits", "breast_cancer", "wine", "synth-2-clusters"]))
    F = {"digits": 64, "breast_cancer": 30, "wine": 13, "synth-2-clusters": 1}[ds]
    return {
        "ds": ds if F > 1 else "wine", "D": draw(st.integers(0, 3)), "S": draw(st.integers(1, 3)), "I": draw(st.integers(1, 3)),
        "R": draw(st.integers(1, 3)), "K": draw(st.integers(2, 4)), "struct": draw(st.sampled_from(gen.STRUCTS)),
        "dist": draw(st.sampled_from(["normal", "normal_rat", "binomial"])), "n": draw(st.integers(1, 7)), "seed": draw(gen.SEED),
        "scale": draw(st.sampled_from([1.0, 40.0])),
    }


def run_wrapper(case, t):
    from omegaconf import OmegaConf

    import models_pl
    from simple_einet.data import get_data_shape

    K = case["K"]
    conf = dict(dataset=case["ds"], dist=case["dist"], epochs=2, tag=None, model="einet", num_classes=K, dropout=0.0, mixture=False,
                n_bits=8, lr=0.1, min_sigma=0.1, max_sigma=2.0,
                einet=dict(D=case["D"], S=case["S"], I=case["I"], R=case["R"], layer_type=case["struct"][1], structure=case["struct"][0]))
    gen.seed_all(case["seed"])
    disc = models_pl.SpnDiscriminative(OmegaConf.create(conf), 1)
    gen.perturb(disc.spn, case["seed"], 2.0, 1.0)
    conf["num_classes"] = 1
    genr = models_pl.SpnGenerative(OmegaConf.create(conf), 1)
    gen.perturb(genr.spn, case["seed"] + 1, 2.0, 1.0)
    disc.eval()
    genr.eval()
    sh = get_data_shape(case["ds"])
    g = torch.Generator().manual_seed(case["seed"])
    n = case["n"]
    if case["dist"] == "binomial":
        img = torch.randint(256, (n, *sh), generator=g).float() / 255.0
        data = img.double().mul(255).round().float()
    else:
        img = torch.randn((n, *sh), generator=g) * case["scale"]
        data = img.clone()
    y = torch.randint(K, (n,), generator=g)
    t.nontrivial()
    t.label(case["dist"], case["ds"], *case["struct"])
    batch_img, batch_y = img.clone(), y.clone()
    logged = {}
    rec = lambda self, name, value, *a, **k: logged.__setitem__(name, value)
    for mod in (disc, genr):
        mod.log = types.MethodType(rec, mod)
    with torch.no_grad():
        loss, acc = disc._get_cross_entropy_and_accuracy((batch_img, batch_y))
        ll = disc.spn(data)
    t.ok(torch.equal(batch_img, img) and torch.equal(batch_y, y), "the discriminative wrapper changed the batch it was given")
    ref = reference(ll)
    mag = float(ll.double().abs().max())
    want = float(-ref[torch.arange(n), y].mean())
    tol = 1e-4 + 2e-5 * mag
    t.ok(abs(float(loss) - want) <= tol + 1e-4 * abs(want), f"discriminative loss {float(loss)}, mean negative log-posterior of the labels {want}")
    top = ref.max(1)
    best2 = ref.topk(2, dim=1)[0]
    clear = (best2[:, 0] - best2[:, 1]) > 2 * tol
    hit = (top[1] == y)
    lo = float((hit & clear).sum()) / n
    hi = float((hit | ~clear).sum()) / n
    t.ok(lo - 1e-6 <= float(acc) <= hi + 1e-6, f"accuracy {float(acc)}, expected in [{lo}, {hi}]")
    with torch.no_grad():
        steps = [("training_step", "Train/loss", "Train/accuracy", (0,)), ("validation_step", "Val/loss", "Val/accuracy", (0,)),
                 ("test_step", None, "Test/val_accuracy", (0, 1))]
        for name, lk, ak, args in steps:
            logged.clear()
            r = getattr(disc, name)((img.clone(), y.clone()), *args)
            if r is not None:
                t.ok(abs(float(r) - want) <= tol + 1e-4 * abs(want), f"{name} returns {float(r)}, expected {want}")
            if lk:
                t.ok(abs(float(logged[lk]) - want) <= tol + 1e-4 * abs(want), f"{name} logs loss {float(logged[lk])}, expected {want}")
            t.ok(lo - 1e-6 <= float(logged[ak]) <= hi + 1e-6, f"{name} logs accuracy {float(logged[ak])}")
        g1 = genr.spn(data).double()
        for red, w in (("mean", -g1.mean()), ("sum", -g1.sum())):
            got = float(genr.negative_log_likelihood(data, reduction=red))
            t.ok(abs(got - float(w)) <= 1e-5 * abs(float(w)) + 1e-4, f"generative {red} loss {got}, negative log-likelihood {float(w)}")
        w = float(-g1.mean())
        t.ok(abs(float(genr.negative_log_likelihood(data)) - w) <= 1e-5 * abs(w) + 1e-4, "default reduction is not the mean")
        for name, key, args in [("training_step", "Train/loss", (0,)), ("validation_step", "Val/loss", (0,)), ("test_step", "Test/test_nll", (0, 2))]:
            b = img.clone()
            logged.clear()
            r = getattr(genr, name)((b, y), *args)
            t.ok(torch.equal(b, img), f"generative {name} changed the batch it was given")
            for v in ([logged[key]] + ([r] if r is not None else [])):
                t.ok(abs(float(v) - w) <= 1e-5 * abs(w) + 1e-3, f"generative {name}: {float(v)}, mean negative log-likelihood {w}")
    try:
        genr.negative_log_likelihood(data, reduction="none?")
    except ValueError:
        pass
    else:
        t.fail("an unknown reduction was accepted")


SUBS = [
    Sub("models", st_model, run_model, quick=1200, desc="Einet.posterior and main.log_likelihoods of generated multi-class models"),
    Sub("tables", st_table, run_table, quick=800, desc="posterior() on generated tables of class log-likelihoods, zero likelihoods included"),
    Sub("wrappers", st_wrapper, run_wrapper, quick=120, desc="losses and accuracies of the training wrappers in models_pl"),
]
