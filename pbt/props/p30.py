"""P30: data-driven leaf initialisation reflects the data statistics."""
import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Sub

RULE = ("A case is an Einet or a Mixture of Einets, a data set (feature-dependent means and scales, sorted or shuffled rows, images or tables, memory layout, data type) and a batching. "
        "Non-trivial: more than one batch or more than one leaf component.")
ASSUMPTIONS = ["the added noise is Gaussian with a tenth of the spread of the statistics (a violation needs more than seven of its standard deviations); variances are only increased, by 1e-3 and the noise",
               "initialisation is documented for normal leaves; every other leaf is left as it is"]


@st.composite
def st_case(draw):
    cfg = draw(gen.einet_cfg(wide="IRCF", leaf={"type": draw(st.sampled_from(["normal"] * 7 + ["ratnormal", "binomial"]))}, max_states=None, max_F=9, max_C=3, max_S=3, max_I=3, max_R=3, max_K=3))
    if cfg["leaf"]["type"] == "binomial":
        cfg["leaf"]["n"] = 3
    if cfg["leaf"]["type"] == "ratnormal":
        cfg["leaf"].update(min_sigma=0.1, max_sigma=1.0)
    return {"cfg": cfg, "M": draw(st.sampled_from([0, 0, 1, 3])), "n": draw(gen.rows(2, 40)), "bs": draw(st.sampled_from([1, 2, 3, 7, 16, 64])), "s": draw(gen.SEED),
            "sorted": draw(st.booleans()), "image": draw(st.booleans()), "strided": draw(st.integers(0, 3)) == 0, "flat": draw(st.integers(0, 5)), "scale": draw(st.sampled_from([0.1, 1.0, 10.0])),
            "loc": draw(st.sampled_from([0.0, 0.0, 50.0])), "f64": draw(st.integers(0, 5)) == 0}


def run_case(case, t):
    from torch.utils.data import DataLoader, TensorDataset
    from simple_einet.einet import Einet
    from simple_einet.mixture import Mixture
    from simple_einet.sampling_utils import init_einet_stats

    cfg = dict(case["cfg"])
    C, F = cfg["C"], cfg["F"]
    g = torch.Generator().manual_seed(case["s"])
    mu = case["loc"] + case["scale"] * 5 * torch.randn(C, F, generator=g)
    sd = case["scale"] * torch.rand(C, F, generator=g).add(0.1)
    if case["flat"] == 0:
        sd[:, 0] = 0.0
    x = mu + sd * torch.randn(case["n"], C, F, generator=g)
    if cfg["leaf"]["type"] == "binomial":
        x = torch.randint(4, (case["n"], C, F), generator=g).float()
    if case["sorted"]:
        x = x[x[:, 0, 0].argsort()]
    if case["f64"]:
        x = x.double()
    keep = x.clone()
    data = x
    if case["image"]:
        h = 2 if F % 2 == 0 else 1
        data = x.view(-1, C, h, F // h)
        if case["strided"]:
            data = data.contiguous(memory_format=torch.channels_last)
    elif case["strided"]:
        data = x.permute(2, 1, 0).contiguous().permute(2, 1, 0)

    class Rows(torch.utils.data.Dataset):
        def __len__(self):
            return len(x)

        def __getitem__(self, i):
            return data[i], 0

    if case["strided"] and case["image"]:  # batches which keep their memory layout
        loader = [(b, torch.zeros(len(b))) for b in data.split(case["bs"])]
    else:
        loader = DataLoader(Rows(), batch_size=case["bs"])
    gen.seed_all(cfg["seed"])
    conf = gen.einet_config(cfg)
    m = Mixture(n_components=case["M"], config=conf) if case["M"] else Einet(conf)
    t.label(*gen.labels(cfg))
    t.label("mixture" if case["M"] else "einet", "bs=%d" % case["bs"], "image" if case["image"] else "table", "last-batch-of-one" if case["n"] % case["bs"] == 1 else "no-single-row")
    t.nontrivial(case["n"] > case["bs"] or cfg["I"] * cfg["R"] > 1)
    before = {k: v.clone() for k, v in m.state_dict().items()}
    ids = [id(p) for p in m.parameters()]
    torch.manual_seed(case["s"])
    res = init_einet_stats(m, loader)
    t.ok(torch.equal(data.reshape(keep.shape), keep), "the data was modified")
    t.ok([id(p) for p in m.parameters()] == ids and all(p.requires_grad for n, p in m.named_parameters() if n.endswith((".means", ".logvar"))), "parameters were replaced or frozen")
    after = m.state_dict()
    normal = cfg["leaf"]["type"] == "normal"
    for k, v in before.items():
        if normal and k.endswith((".means", ".logvar")):
            continue
        t.ok(torch.equal(v, after[k]) or v.numpy().tobytes() == after[k].numpy().tobytes(), f"initialisation changed {k}")
    if not normal:
        return
    want_mu, want_var = keep.double().mean(0), keep.double().var(0)
    nets = list(m.models) if case["M"] else [m]
    t.ok(not case["M"] or len(nets) == case["M"], "number of components")
    seen = []
    for i, net in enumerate(nets):
        leaf = net.leaf.base_leaf if hasattr(net.leaf, "base_leaf") else net.leaf
        mean, var = leaf.means.detach().double()[0], leaf.logvar.detach().double().exp()[0]
        t.ok(tuple(leaf.means.shape) == (1, C, F, cfg["I"], cfg["R"]) and leaf.means.shape == leaf.logvar.shape and leaf.means.dtype == torch.float32, f"parameters of shape {tuple(leaf.means.shape)} and type {leaf.means.dtype}")
        t.ok(bool(torch.isfinite(mean).all() and torch.isfinite(leaf.logvar).all()), "parameters are not finite")
        noise = 0.1 * float(want_mu.std()) * 7.5
        err = (mean - want_mu[..., None, None]).abs()
        t.ok(bool((err <= noise + 1e-4 * (1 + want_mu.abs().max())).all()), f"component {i}: means {mean[:, :, 0, 0].tolist()} for data of means {want_mu.tolist()}")
        noise = 0.1 * float(want_var.std()) * 7.5
        d = var - want_var[..., None, None] - 1e-3
        tol = 1e-4 + 1e-3 * want_var[..., None, None]
        t.ok(bool((d >= -tol).all() and (d <= noise + tol).all()), f"component {i}: variances {var[:, :, 0, 0].tolist()} for data of variances {want_var.tolist()}")
        seen.append(mean)
    allm = torch.stack(seen)
    if allm.numel() > C * F and float(want_mu.std(unbiased=False)) > 1e-3:
        t.ok(bool((allm.flatten(0, 0).permute(1, 2, 0, 3, 4).flatten(2).std(-1) > 0).all()), "components and repetitions are initialised identically")
    if not case["M"]:
        with torch.no_grad():
            ll = m(keep.float())
        t.ok(bool(torch.isfinite(ll).all()), "the log-likelihood of the data is not finite")


SUBS = [Sub("stats", st_case, run_case, quick=3000, desc="leaf means and variances against the statistics of the whole data, for every batching; all else unchanged")]
