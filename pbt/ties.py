"""Greedy completions (MPE) that rounding decides: two nearly equal branches may be chosen differently by equivalent calls."""
import copy

import torch


def unsettled(m, query, heads=None, tries=10, eps=1e-5):
    """query(model) -> completion. True if tiny changes of the parameters change the completion, or if the log-likelihoods of the
    heads (classes) under the evidence, given as `heads`, have no clear maximum."""
    if heads is not None and heads.numel() > 1:
        top = heads.detach().double().flatten().topk(2).values
        if float(top[0] - top[1]) < 2e-5 * (1 + float(top[0].abs())) or not bool(torch.isfinite(top).all()):
            return True
    with torch.no_grad():
        base = query(m).detach().double()
        for i in range(tries):
            c = copy.deepcopy(m)
            g = torch.Generator().manual_seed(i)
            for p in c.parameters():
                if p.requires_grad:
                    p.add_(eps * (1 + p.abs()) * torch.randn(p.shape, generator=g).to(p.dtype))
            got = query(c).detach().double()
            if not torch.allclose(got, base, atol=1e-2, rtol=1e-2):
                return True
    return False
