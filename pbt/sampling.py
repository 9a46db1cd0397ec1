"""Shared oracles for sampled data: exact distributions by enumeration or quadrature, two-stage tests, support tests."""
import copy
import math

import numpy as np
import torch

from . import gen, stats


def counts_of(cfg, x):
    """Counts per state in gen.all_states order, plus one cell for values outside the domain."""
    idx = stats.state_index(gen.domain(cfg), cfg["C"], x)
    M = 1
    for d in gen.domain(cfg):
        M *= len(d) ** cfg["C"]
    idx[idx < 0] = M
    return np.bincount(idx.numpy(), minlength=M + 1)


def joint_test(cfg, probs, sampler, t, what, n=2500):
    """sampler(n, seed) -> [n, C, F] must follow `probs` over gen.all_states."""
    pr = np.append(np.asarray(probs, float), 0.0)

    def draw(k, s):
        x = sampler(k, s)
        t.ok(tuple(x.shape) == (k, cfg["C"], cfg["F"]), f"{what}: shape {tuple(x.shape)}, expected {(k, cfg['C'], cfg['F'])}")
        return counts_of(cfg, x.float())

    ok, detail = stats.two_stage(draw, pr, n)
    if not ok:
        c = draw(4 * n, 3)
        e = pr * 4 * n
        w = int(np.argmax((c - e) ** 2 / (e + 1.0)))
        st = gen.all_states(cfg)
        name = st[w].tolist() if w < len(st) else "outside the domain"
        t.ok(False, f"{what}: samples do not follow the exact distribution (p={detail}); e.g. {name}: {c[w]} of {4 * n} samples, expected {e[w]:.1f}")
    t.checks += 1


def head_mix(ll, heads=None):
    """Uniform mixture over the given heads of a [M, K] log-likelihood table, as probabilities."""
    ll = ll.double()
    K = ll.shape[1]
    return (torch.logsumexp(ll, 1) - math.log(K)).exp().numpy()


def pair_marginal(cfg, m, a, b, evidence=None, mix=True):
    """Exact table p(x_a, x_b | evidence) for two discrete cells (c, f) by all-missing queries. [Ka, Kb] (mix of heads)."""
    dom = gen.domain(cfg)
    (ca, fa), (cb, fb) = a, b
    va = torch.tensor(dom[fa], dtype=torch.float32)
    vb = torch.tensor(dom[fb], dtype=torch.float32)
    g = torch.cartesian_prod(va, vb)
    x = torch.full((len(g), cfg["C"], cfg["F"]), float("nan"))
    if evidence is not None:
        x[:] = evidence
    x[:, ca, fa] = g[:, 0]
    x[:, cb, fb] = g[:, 1]
    ll = torch.logsumexp(gen.forward_chunks(m, x).double(), 1) if mix is True else gen.forward_chunks(m, x).double()[:, mix]
    return torch.softmax(ll, 0).numpy(), va, vb


def pair_test(cfg, m, pairs, sampler, t, what, n=3000, evidence=None, mix=True):
    """Pairwise marginals of discrete cells against exact tables, Bonferroni over the pairs."""
    tabs = [pair_marginal(cfg, m, a, b, evidence, mix) for a, b in pairs]

    def counts(x, k):
        (ca, fa), (cb, fb) = pairs[k]
        _, va, vb = tabs[k]
        ea = (x[:, ca, fa, None] == va)
        eb = (x[:, cb, fb, None] == vb)
        ok = ea.any(1) & eb.any(1)
        idx = ea.float().argmax(1) * len(vb) + eb.float().argmax(1)
        idx[~ok] = len(va) * len(vb)
        return np.bincount(idx.numpy(), minlength=len(va) * len(vb) + 1)

    x1 = sampler(n, 1).float()
    t.ok(tuple(x1.shape) == (n, cfg["C"], cfg["F"]), f"{what}: shape {tuple(x1.shape)}")
    bad = [k for k in range(len(pairs)) if stats.chi2_p(np.append(tabs[k][0], 0.0), counts(x1, k)) < stats.P_CUT]
    t.checks += len(pairs)
    if bad:
        x2 = sampler(4 * n, 2).float()
        for k in bad:
            pr, c = np.append(tabs[k][0], 0.0), counts(x2, k)
            t.ok(stats.chi2_p(pr, c) >= stats.P_CUT,
                 f"{what}: cells {pairs[k]} are jointly distributed as {np.round(c / c.sum(), 4).tolist()}, expected {np.round(pr, 4).tolist()}")


def cell_cdf(cfg, m, cell, evidence=None, mix=True, h=0.02, tmax=5.3):
    """(nodes, cdf) of one continuous cell given evidence, by quadrature of the marginal density."""
    from .props.p01 import quad_axis

    a, lw = quad_axis(h, tmax)
    x = torch.full((len(a), cfg["C"], cfg["F"]), float("nan"))
    if evidence is not None:
        x[:] = evidence
    x[:, cell[0], cell[1]] = a
    ll = gen.forward_chunks(m, x).double()
    ll = torch.logsumexp(ll, 1) if mix is True else ll[:, mix]
    w = (ll + lw - (ll + lw).max()).exp()
    w = (w / w.sum()).numpy()
    c = np.cumsum(w) - 0.5 * w
    return a.double().numpy(), c


def ks_test(nodes, cdf, sampler, t, what, n=3000):
    F = lambda v: np.interp(v, nodes, cdf, left=0.0, right=1.0)
    p1 = stats.ks_p(sampler(n, 1), F)
    t.checks += 1
    if p1 < stats.P_CUT:
        p2 = stats.ks_p(sampler(4 * n, 2), F)
        t.ok(p2 >= stats.P_CUT, f"{what}: samples do not follow the marginal density (KS p={p1:.2e}, again {p2:.2e})")


def pair_cont_probs(cfg, m, a, b, edges_a, edges_b, evidence=None, mix=True, h=0.05, tmax=5.3):
    """Probability of each rectangle for two continuous cells (given evidence)."""
    from .props.p01 import quad_axis

    na, lw = quad_axis(h, tmax)
    g = torch.cartesian_prod(na, na)
    w2 = (lw[:, None] + lw[None, :]).reshape(-1)
    x = torch.full((len(g), cfg["C"], cfg["F"]), float("nan"))
    if evidence is not None:
        x[:] = evidence
    x[:, a[0], a[1]] = g[:, 0]
    x[:, b[0], b[1]] = g[:, 1]
    ll = gen.forward_chunks(m, x).double()
    ll = (torch.logsumexp(ll, 1) if mix is True else ll[:, mix]) + w2
    p = (ll - ll.max()).exp()
    p = (p / p.sum()).numpy()
    return na.numpy(), p.reshape(len(na), len(na))


def separated_normals(model, sigma=0.1, gap=10.0):
    """Give every Normal leaf of the model its own far-away mean per (component, repetition)."""
    from simple_einet.layers.distributions.normal import Normal

    for mod in model.modules():
        if isinstance(mod, Normal):
            with torch.no_grad():
                _, C, F, L, R = mod.means.shape
                v = torch.arange(L * R, dtype=torch.float32).view(1, 1, 1, L, R) * gap
                mod.means.copy_(v.expand_as(mod.means))
                mod.logvar.fill_(2 * math.log(sigma))


def reachable(model, x, sigma=0.1, gap=10.0, heads=None):
    """For separated_normals models: is each sample one the model can generate (log-density close to that of a draw)?"""
    model = copy.deepcopy(model)  # children that sparse_sums closed are impossible
    for mod in model.modules():
        if type(mod).__name__ == "EinsumLayer":
            with torch.no_grad():
                mod.logits.masked_fill_(mod.logits == EINSUM_LOW, -1e5)
    z = x / gap
    resid = ((z - z.round()) * gap / sigma).double()
    per = (-0.5 * resid**2 - math.log(sigma) - 0.9189385).flatten(1).sum(1)
    ll = gen.forward_chunks(model, x).double()
    ll = torch.logsumexp(ll, 1) if heads is None else ll.gather(1, heads.view(-1, 1)).squeeze(1)
    return ll > per - 3000.0, ll, per


EINSUM_LOW = -80.0


def sparse_sums(model, seed):
    """Leave every sum node of the model (the class root aside) one to three children of positive probability, at random positions."""
    g = torch.Generator().manual_seed(seed ^ 0x5BA5)
    edge = bool(torch.randint(2, (1,), generator=g))
    for name, mod in model.named_modules():
        if not name or name.startswith("_class") or not hasattr(mod, "logits") or "leaf" in name:
            continue
        with torch.no_grad():
            w = mod.logits
            kind = type(mod).__name__
            flat = w.flatten(-2) if kind == "EinsumLayer" else w if kind == "MixingLayer" else w.movedim(1, -1)
            score = torch.rand(flat.shape, generator=g)
            if edge:  # favour the last few children
                n = w.shape[-1] if kind == "EinsumLayer" else flat.shape[-1]
                last = torch.arange(flat.shape[-1]) % n >= n - 4
                score = score + last * torch.randint(0, 2, (*flat.shape[:-1], 1), generator=g)
            k = min(flat.shape[-1], int(torch.randint(1, 4, (1,), generator=g)))
            keep = score >= score.topk(k, dim=-1)[0][..., -1:]
            # einsum layers keep their weights within the range of float32 probabilities
            new = flat.masked_fill(~keep, EINSUM_LOW if kind == "EinsumLayer" else -1e5)
            new = new.view(w.shape) if kind in ("EinsumLayer", "MixingLayer") else new.movedim(-1, 1)
            w.copy_(new)


def drift(x, keep, offset):
    """Observed values moved away from every leaf mean, but nearest to the mean they came from."""
    return torch.where(keep, x + offset, x)


DRIFTS = [0.0, 0.0, 2.0, 4.0, -4.0]


def in_chunks(sampler, size):
    """sampler(n, seed) whose draws come from many separate queries of `size` rows, each with its own seed."""

    def draw(k, s):
        out = [sampler(size, 100003 * (s + 1) + i) for i in range(-(-k // size))]
        return torch.cat(out)[:k]

    return draw


def mode_test(m, sampler, t, what, base=None, keep=None, heads=True, n=600, sigma=0.1, gap=10.0, limit=400):
    """Components drawn under mpe_at_leaves: for separated_normals models every sample is a combination of component means.

    sampler(n, seed) -> rows. The weight of a combination is the density there over that of its leaves; the combinations come from
    a first sample, the frequencies from later, independent ones."""
    lognorm = -math.log(sigma) - 0.9189385332

    def lls(x):
        ll = gen.forward_chunks(m, x).double()
        return torch.logsumexp(ll, 1) - math.log(ll.shape[1]) if heads is True else ll[:, heads]

    def canon(x):
        z = x.double() / gap
        t.ok(bool(((z - z.round()).abs() < 1e-4).all()), f"{what}: a value is not the mode of any leaf")
        return z.round().long().flatten(1)

    first = sampler(4 * n, 11)
    z = canon(first)
    uniq, cnt = torch.unique(z, dim=0, return_counts=True)
    uniq = uniq[cnt.argsort(descending=True)[:limit]]
    rows = (uniq.double() * gap).float().view(-1, *first.shape[1:])
    cells = z.shape[1] if keep is None else int((~keep).sum())
    ll = lls(rows) - cells * lognorm
    if base is not None:
        ll = ll - lls(base.masked_fill(~keep, float("nan")).unsqueeze(0))[0]
    p = ll.exp().numpy()
    t.ok(p.sum() < 1 + 1e-3 * (1 + abs(float(ll.max()))), f"{what}: weights of distinct combinations sum to {p.sum()}")
    pr = np.append(p, max(1 - p.sum(), 1e-6))
    index = {tuple(r): i for i, r in enumerate(uniq.tolist())}

    def counts(k, s):
        ids = [index.get(tuple(r), len(index)) for r in canon(sampler(k, s)).tolist()]
        return np.bincount(ids, minlength=len(index) + 1)

    ok, d = stats.two_stage(counts, pr, n, seeds=(21, 22))
    t.ok(ok, f"{what}: combinations of leaf modes are not drawn with their weights (p={d})")
    t.label("combinations=%s" % ("1" if len(uniq) == 1 else "few" if len(uniq) < 20 else "many"))
    return len(uniq)
