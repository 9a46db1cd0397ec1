"""Two-stage goodness-of-fit tests. A violation needs p < 1e-6 on one sample and again on an independent, larger one."""
import math

import numpy as np

P_CUT = 1e-6


def _chi2_sf(x, k):
    from scipy.stats import chi2

    return float(chi2.sf(x, k))


def pool(expected, observed, min_exp=10.0):
    """Merge the rarest cells until every cell expects at least min_exp."""
    order = np.argsort(expected)
    e, o = np.asarray(expected, float)[order], np.asarray(observed, float)[order]
    E, O = [], []
    ce = co = 0.0
    for i in range(len(e)):
        ce += e[i]
        co += o[i]
        if ce >= min_exp:
            E.append(ce)
            O.append(co)
            ce = co = 0.0
    if ce > 0 or co > 0:
        if E:
            E[-1] += ce
            O[-1] += co
        else:
            E.append(ce)
            O.append(co)
    return np.array(E), np.array(O)


def chi2_p(probs, counts):
    """p-value that `counts` were drawn from `probs`; 0 if a cell of probability ~0 was drawn too often."""
    probs = np.asarray(probs, float)
    probs = np.clip(probs, 0, None)
    probs = probs / probs.sum()
    counts = np.asarray(counts, float)
    n = counts.sum()
    e = probs * n
    tiny = e < 1e-7  # cells that should never be seen
    if counts[tiny].sum() > 0:
        return 0.0
    # jointly rare cells: Poisson tail on their total
    rare = (e < 10.0)
    p = 1.0
    if rare.any() and e[rare].sum() < 10.0:
        from scipy.stats import poisson

        k = counts[rare].sum()
        p = min(1.0, 2 * float(poisson.sf(k - 1, e[rare].sum() + 1e-12)))
    E, O = pool(e, counts)
    if len(E) > 1:
        stat = ((O - E) ** 2 / E).sum()
        p = min(p, _chi2_sf(stat, len(E) - 1))
    return p


def two_stage(draw_counts, probs, n1, n2=None, seeds=(1, 2)):
    """draw_counts(n, seed) -> counts aligned with probs. Returns (ok, detail)."""
    p1 = chi2_p(probs, draw_counts(n1, seeds[0]))
    if p1 >= P_CUT:
        return True, p1
    p2 = chi2_p(probs, draw_counts(n2 or 4 * n1, seeds[1]))
    return p2 >= P_CUT, (p1, p2)


def ks_p(samples, cdf):
    from scipy.stats import kstest

    return float(kstest(np.asarray(samples, float), cdf).pvalue)


def state_index(cfg_domain, C, x):
    """Index of rows x [N, C, F] in the enumeration order of gen.all_states, -1 if out of the domain."""
    import torch

    N = x.shape[0]
    idx = torch.zeros(N, dtype=torch.long)
    bad = torch.zeros(N, dtype=torch.bool)
    for c in range(C):
        for f, dom in enumerate(cfg_domain):
            vals = torch.tensor(dom, dtype=x.dtype)
            eq = x[:, c, f].unsqueeze(-1) == vals
            bad |= ~eq.any(-1)
            idx = idx * len(dom) + eq.float().argmax(-1)
    idx[bad] = -1
    return idx
