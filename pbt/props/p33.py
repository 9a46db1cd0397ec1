"""P33: stand-alone layers route samples to their children exactly as they weigh them."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.special import log_softmax
from torch import nn

from .. import gen, stats
from ..core import Sub
from . import p04

RULE = ("A case is a layer (type, feature count, widths, repetitions), seeded weights, up to four parent contexts (chosen output per "
        "region and repetition), optional evidence log-densities, a temperature and a sampling flavour; each context is drawn many times. "
        "Non-trivial: at least two children per sum (products: at least two factors).")
ASSUMPTIONS = ["reference probabilities are computed in float64 from the layers' definitions",
               "frequencies are judged by two-stage chi-square tests at 1e-6 divided by the number of tests"]
SUMS = ["linsum", "linsum2", "einsum", "sum", "mixing"]
PRODS = ["rootproduct", "product", "crossproduct"]


@st.composite
def st_sum(draw):
    kind = draw(st.sampled_from(SUMS))
    D = draw(st.integers(1, 7))
    if kind == "einsum":
        D = 2 * draw(st.integers(1, 3))
    if kind in ("linsum", "linsum2"):
        D = draw(st.integers(2, 9))
    case = {
        "kind": kind, "D": D, "Sin": draw(st.integers(1, 4)), "Sout": draw(st.integers(1, 4)), "R": draw(st.integers(1, 4)),
        "seed": draw(gen.SEED), "gain": draw(st.sampled_from([0.0, 0.7, 2.0, 6.0])), "G": draw(st.integers(1, 4)),
        "ev": draw(st.sampled_from([None, None, 0.0, 1.0, 4.0, 200.0])), "center": draw(st.sampled_from([0.0, -40.0, -3000.0, 100.0])),
        "zero": draw(st.sampled_from([0.0, 0.0, 0.3])), "T": draw(st.sampled_from([1.0, 1.0, 0.5, 2.5])),
        "mode": draw(st.sampled_from(["sample", "sample", "diff", "mpe", "diffmpe"])), "card": 1,
    }
    gen.widen(draw, case, {"Sin": (9, 10 if kind == "einsum" else 24), "Sout": (6, 20), "R": (6, 14), "D": (10, 36)})
    if "wide" not in case and draw(st.integers(0, 14)) == 7:  # one dimension beyond 64 (einsum) or 128
        k = draw(st.sampled_from(["Sin", "Sout", "R"]))
        case[k] = draw(st.integers(65, 70) if kind == "einsum" and k == "Sin" else st.integers(129, 140))
        case["G"], case["D"], case["wide"] = 1, 2, "huge"
        if k == "Sin":
            case["R"] = min(case["R"], 2)
        case["Sout"] = min(case["Sout"], 2) if k != "Sout" else case["Sout"]
    case["D"] += kind == "einsum" and case["D"] % 2
    return case


class Wrap(nn.Module):
    def __init__(self, layer):
        super().__init__()
        self.layer = layer

    def forward(self, x, marginalized_scopes=None):
        return self.layer(x)


def table(case, layer, out, rep, x):
    """float64 log-probabilities [regions, children] of one context; einsum children are flattened pairs."""
    k, T = case["kind"], case["T"]
    W = layer.logits.detach().double().numpy() / T
    rows = []
    if k in ("linsum", "einsum"):
        l, r = p04.pair(x[None]) if x is not None else (None, None)
        for d in range(W.shape[0]):
            if k == "linsum":
                lw = log_softmax(W[d, :, out[d], rep])
                add = 0 if x is None else l[0, d, :, rep] + r[0, d, :, rep]
            else:
                lw = log_softmax(W[d, out[d], rep].reshape(-1))
                add = 0 if x is None else (l[0, d, :, None, rep] + r[0, d, None, :, rep]).reshape(-1)
            rows.append(lw + add)
    elif k == "linsum2":
        for f in range(case["D"]):
            rows.append(log_softmax(W[f, :, out[f // 2], rep]) + (0 if x is None else x[f, :, rep]))
    elif k == "sum":
        for f in range(case["D"]):
            rows.append(log_softmax(W[f, :, out[f], rep]) + (0 if x is None else x[f, :, rep]))
    else:
        for f in range(case["D"]):
            rows.append(log_softmax(W[f, out[f]]) + (0 if x is None else x[f, out[f], :]))
    with np.errstate(invalid="ignore"):
        return log_softmax(np.stack(rows), axis=1)


def contexts(case, layer):
    k = case["kind"]
    rng = np.random.RandomState(case["seed"] % 2**32)
    Fout = (case["D"] + 1) // 2 if k in ("linsum", "linsum2", "einsum") else case["D"]
    nout = case["Sin"] if k == "mixing" else case["Sout"]
    R = 1 if k == "mixing" else case["R"]
    G = case["G"]
    outs = rng.randint(0, nout, (G, Fout))
    reps = rng.randint(0, R, G)
    x = None
    if case["ev"] is not None:
        shape = (G, case["D"], case["Sin"], case["R"])
        x = case["center"] + case["ev"] * rng.randn(*shape)
        if case["zero"] and "diff" not in case["mode"]:
            z = rng.rand(*shape) < case["zero"]
            z[:, :, 0, :] = False
            if k == "mixing":
                z[:, :, :, 0] = False
            x[z] = -np.inf
        x = x.astype(np.float32)
    return outs, reps, x, nout, R


def draw(case, layer, outs, reps, x, nout, R, n, seed):
    """Indices chosen for every context n times: [G * n, Fin] (context-major), checked to be well formed."""
    from simple_einet.sampling_utils import SamplingContext, sampling_context

    N = len(outs) * n
    o = torch.tensor(np.repeat(outs, n, 0))
    r = torch.tensor(np.repeat(reps, n, 0))
    diff = case["mode"].startswith("diff")
    if diff:
        o = torch.nn.functional.one_hot(o, nout).float()
        r = torch.nn.functional.one_hot(r, R).float()
    ev = torch.tensor(np.repeat(x, n, 0)) if x is not None else None
    ctx = SamplingContext(num_samples=N, indices_out=o, indices_repetition=r, is_mpe="mpe" in case["mode"],
                          temperature_sums=case["T"], num_repetitions=R, is_differentiable=diff, hard=True, tau=1.0, evidence=ev)
    with sampling_context(Wrap(layer), evidence=ev, requires_grad=False, seed=case["seed"] % 10**6 + seed):
        ctx = layer.sample(ctx)
    return ctx.indices_out


def run_sum(case, t):
    layer = p04.make(case)
    before = {k: v.clone() for k, v in layer.state_dict().items()}
    outs, reps, x, nout, R = contexts(case, layer)
    S = case["R"] if case["kind"] == "mixing" else case["Sin"]
    t.label(case["kind"], case["mode"], "evidence" if x is not None else "prior", "odd" if case["D"] % 2 else "even")
    t.nontrivial(S > 1)
    tabs = [table(case, layer, outs[g], reps[g], None if x is None else x[g].astype(np.float64)) for g in range(len(outs))]
    diff = case["mode"].startswith("diff")
    Fin = case["D"]

    def get(n, seed):
        i = draw(case, layer, outs, reps, x, nout, R, n, seed)
        if diff:
            t.ok(tuple(i.shape) == (len(outs) * n, Fin, S), f"one-hot indices of shape {tuple(i.shape)}, expected {(len(outs) * n, Fin, S)}")
            hard = torch.nn.functional.one_hot(i.argmax(-1), S).to(i.dtype)
            t.ok(bool((i - hard).abs().max() <= 1e-5), lambda: f"not one-hot: {i[(i - hard).abs().amax(-1) > 1e-5][:2].tolist()}")
            i = i.argmax(-1)
        t.ok(tuple(i.shape) == (len(outs) * n, Fin), f"indices of shape {tuple(i.shape)}, expected {(len(outs) * n, Fin)}")
        t.ok(bool(((i >= 0) & (i < S)).all()), f"index out of range 0..{S - 1}")
        i = i.numpy().reshape(len(outs), n, Fin)
        # index of the chosen child per region
        if case["kind"] == "linsum":
            l, r = i[:, :, 0::2], i[:, :, 1::2]
            t.ok(bool((l[:, :, : r.shape[2]] == r).all()), "the two factors of a product follow different children")
            return l
        if case["kind"] == "einsum":
            return i[:, :, 0::2] * S + i[:, :, 1::2]
        return i

    if "mpe" in case["mode"]:
        a, b = get(2, 1), get(2, 2)
        t.ok(bool((a == b).all()), "MPE choices depend on the seed")
        for g, tab in enumerate(tabs):
            for d in range(tab.shape[0]):
                best = tab[d].max()
                for s in range(2):
                    t.ok(tab[d, a[g, s, d]] >= best - 1e-3 - 1e-6 * abs(case["center"]) - 1e-6 * (case["ev"] or 0),
                         lambda: f"context {g}, region {d}: MPE takes child {a[g, s, d]} with log-probability {tab[d, a[g, s, d]]:.4f}, best is {best:.4f}")
    else:
        n = 1200
        cells = [(g, d) for g in range(len(tabs)) for d in range(tabs[g].shape[0])]
        first, second = get(n, 1), None
        # float32 evidence of large magnitude blurs the posterior a little: compare only where that cannot matter
        blur = 4e-7 * (abs(case["center"]) + 3 * (case["ev"] or 0)) if x is not None else 0.0
        for g, d in cells:
            p = np.exp(tabs[g][d])
            p1 = stats.chi2_p(p, np.bincount(first[g, :, d], minlength=len(p)))
            if p1 < stats.P_CUT and blur < 0.02:
                second = get(4 * n, 2) if second is None else second
                c = np.bincount(second[g, :, d], minlength=len(p))
                t.ok(stats.chi2_p(p, c) >= stats.P_CUT,
                     lambda: f"context {g}, region {d}: children drawn {c.tolist()} times, expected {np.round(p * 4 * n, 1).tolist()}")
            t.checks += 1
        # regions are chosen independently
        for g in range(len(tabs)):
            if tabs[g].shape[0] > 1 and blur < 0.02:
                d, e = 0, tabs[g].shape[0] - 1
                pj = np.outer(np.exp(tabs[g][d]), np.exp(tabs[g][e])).ravel()
                k = tabs[g].shape[1]

                def cj(i):
                    return np.bincount(i[g, :, d] * k + i[g, :, e], minlength=k * k)

                if stats.chi2_p(pj, cj(first)) < stats.P_CUT:
                    second = get(4 * n, 2) if second is None else second
                    t.ok(stats.chi2_p(pj, cj(second)) >= stats.P_CUT, f"context {g}: regions {d} and {e} are not chosen independently")
                t.checks += 1
    after = layer.state_dict()
    t.ok(all(torch.equal(before[k], after[k]) for k in before), "sampling changed the layer's parameters")


@st.composite
def st_prod(draw):
    kind = draw(st.sampled_from(PRODS))
    case = {"kind": kind, "D": draw(st.integers(2 if kind == "crossproduct" else 1, 9)), "Sin": draw(st.integers(1, 4)), "Sout": 1,
            "R": draw(st.integers(1, 3)), "card": draw(st.integers(1, 5)), "seed": draw(gen.SEED), "gain": 0.0, "N": draw(st.integers(1, 5)),
            "diff": draw(st.booleans())}
    return gen.widen(draw, case, {"Sin": (9, 20), "R": (6, 14), "D": (10, 70), "card": (6, 30), "N": (65, 300)})


def run_prod(case, t):
    from simple_einet.sampling_utils import SamplingContext

    layer = p04.make(case)
    k, D, S, N = case["kind"], case["D"], case["Sin"], case["N"]
    rng = np.random.RandomState(case["seed"] % 2**32)
    card = {"rootproduct": D, "product": min(case["card"], D), "crossproduct": 2}[k]
    Fout = -(-D // card)
    width = S * S if k == "crossproduct" else S
    o = rng.randint(0, width, (N, Fout))
    diff = case["diff"] and k != "crossproduct"
    t.label(k, "diff" if diff else "index", "odd" if D % card else "even")
    t.nontrivial(D > 1 and (S > 1))
    io = torch.tensor(o)
    rep = torch.tensor(rng.randint(0, case["R"], N))
    if diff:
        io = torch.nn.functional.one_hot(io, width).float()
    ctx = SamplingContext(num_samples=N, indices_out=io, indices_repetition=rep.clone(), num_repetitions=case["R"], is_differentiable=diff)
    got = layer.sample(ctx)
    if k == "crossproduct":
        want = np.stack([o // S, o % S], 2).reshape(N, -1)[:, :D]
    else:
        want = np.repeat(o, card, 1)[:, :D]
    g = got.indices_out
    if diff:
        t.ok(tuple(g.shape) == (N, D, S), f"shape {tuple(g.shape)}, expected {(N, D, S)}")
        t.ok(torch.equal(g, torch.nn.functional.one_hot(torch.tensor(want), S).float()), "one-hot choices of the factors differ")
    else:
        t.ok(tuple(g.shape) == want.shape, f"choices of shape {tuple(g.shape)}, expected {want.shape}")
        t.ok(bool((g.numpy() == want).all()), lambda: f"choices {g.tolist()[:2]}, expected {want.tolist()[:2]}")
    t.ok(torch.equal(got.indices_repetition, rep), "a product layer changed the repetition")
    # the routing is the one that is evaluated: log-densities picked along the route add up to the output
    x = torch.tensor(rng.randn(N, D, S, case["R"]).astype(np.float32))
    with torch.no_grad():
        y = layer(x)
    picked = x[torch.arange(N)[:, None], torch.arange(D)[None], torch.tensor(want), rep[:, None]]
    top = y[torch.arange(N)[:, None], torch.arange(Fout)[None], torch.tensor(o), rep[:, None]]
    pad = torch.nn.functional.pad(picked, (0, Fout * card - D))
    t.ok(torch.allclose(pad.view(N, Fout, card).sum(-1), top, atol=1e-4), "the selected children do not add up to the value of the selected output")


SUBS = [
    Sub("sums", st_sum, run_sum, quick=3000, desc="sum layers: frequencies of the chosen children per parent context"),
    Sub("products", st_prod, run_prod, quick=600, desc="product layers: routing and its agreement with the forward pass"),
]
