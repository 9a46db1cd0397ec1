"""P12: the leaf cache returns exactly what was computed for its index."""
import torch
from hypothesis import strategies as st

from .. import gen
from ..core import Sub

RULE = ("A case is an Einet configuration and a history of cached and uncached forwards, resets, queries and weight updates, compared with a "
        "reference cache. Non-trivial: a cached index is read again after another call.")
ASSUMPTIONS = ["a cache index is only re-used with inputs of any shape; what counts is the first input stored under it",
               "weight updates are made to sum layers only"]
NAN = float("nan")
ALL = ("bernoulli", "categorical", "binomial", "normal", "ratnormal")


@st.composite
def st_case(draw):
    cfg = draw(gen.einet_cfg(wide="SIRKCV", kinds=ALL, max_states=None, max_F=9, max_C=2, max_S=3, max_I=3, max_R=3, max_K=3, discrete=None))
    idx = st.one_of(st.integers(0, 3), st.sampled_from([0, 0, 10**6, -1, -1, -2, -2, 256, 2**32, 2**61 - 1, 2**64]))
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("cached"), "i": idx, "s": st.integers(0, 99), "scopes": st.booleans(), "nan": st.booleans(), "grad": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("cached"), "i": idx, "s": st.integers(0, 99), "scopes": st.booleans(), "nan": st.booleans(), "grad": st.booleans()}),
        st.fixed_dictionaries({"op": st.sampled_from(["plain", "sample", "evidence", "mpe", "diff-evidence", "reset", "weights", "posterior", "mode"]), "s": st.integers(0, 99)}),
    )
    ops = draw(st.lists(op, min_size=2, max_size=10))
    if draw(st.integers(0, 9)) == 0:  # many indices in one cache
        fill = {"op": "fill", "i": draw(st.sampled_from([0, 2, 100])), "n": draw(st.sampled_from([9, 17, 33, 65, 130, 260])), "s": draw(st.integers(0, 99))}
        ops.insert(draw(st.integers(0, len(ops))), fill)
    many = 0
    if draw(st.integers(0, 11)) == 0:  # large batches: up to a quarter of a million numbers in an entry
        many = -(-draw(st.sampled_from([2**12, 2**14, 2**16, 2**18])) // (cfg["C"] * cfg["F"] * cfg["I"] * cfg["R"]))
        ops = ops[:5]
    return {"cfg": cfg, "ops": ops, "rows": many}


def inp(cfg, op, rows=0):
    x = gen.random_states(cfg, rows + 1 + op["s"] % 3, op["s"])
    if op.get("nan"):
        x = x.masked_fill(torch.rand(x.shape, generator=torch.Generator().manual_seed(op["s"])) < 0.3, NAN)
    kw = {}
    if op.get("scopes") and not op.get("nan"):
        kw["marginalized_scopes"] = [op["s"] % cfg["F"]]
    return x, kw


def same(a, b):
    """Equal up to the rounding of an equivalent evaluation order."""
    a, b = a.detach(), b.detach()
    return a.shape == b.shape and torch.allclose(a, b, rtol=1e-5, atol=1e-5, equal_nan=True)


def run(case, t):
    cfg = case["cfg"]
    m, ref = gen.build(cfg), gen.build(cfg)
    t.label(*gen.labels(cfg))
    if case["rows"]:
        t.label("large batches")
    store, last = {}, None
    for j, op in enumerate(case["ops"]):
        o = op["op"]
        what = f"call {j} ({o}{' ' + str(op['i']) if 'i' in op else ''})"
        if o == "cached":
            x, kw = inp(cfg, op, case["rows"])
            i = op["i"]
            if i in store and last != (i, j - 1):
                t.nontrivial()
                t.label("re-read")
            first = store.setdefault(i, (x.clone(), dict(kw)))
            last = (i, j)
            torch.set_grad_enabled(op["grad"])
            got = m(x, cache_index=i, **kw)
            torch.set_grad_enabled(True)
            exp = ref(first[0].clone(), **first[1])
            t.ok(same(got, exp),
                 lambda: f"{what}: {got.flatten()[:9].tolist()}…, the first input stored under this index gives {exp.flatten()[:9].tolist()}…")
        elif o == "fill":
            for i in range(op["i"], op["i"] + op["n"]):
                x, _ = inp(cfg, {"s": op["s"] + i})
                store.setdefault(i, (x.clone(), {}))
                m(x, cache_index=i)
        elif o == "plain":
            x, kw = inp(cfg, op, case["rows"])
            t.ok(same(m(x, **kw), ref(x.clone(), **kw)), f"{what}: an uncached forward differs from a fresh model")
        elif o == "posterior":
            if cfg["K"] > 1:
                x, _ = inp(cfg, op)
                t.ok(same(m.posterior(x), ref.posterior(x)), f"{what} differs from a fresh model")
        elif o in ("sample", "evidence", "mpe", "diff-evidence"):
            x = gen.random_states(cfg, 2, op["s"])
            ev = x.masked_fill(torch.rand(x.shape, generator=torch.Generator().manual_seed(op["s"])) < 0.5, NAN)
            kw = dict(seed=op["s"])
            if o == "sample":
                kw["num_samples"] = 3
            else:
                kw.update(evidence=ev, is_mpe=o == "mpe", is_differentiable=o.startswith("diff"))
            t.ok(torch.equal(m.sample(**kw).detach(), ref.sample(**kw).detach()), f"{what} differs from a fresh model")
        elif o == "reset":
            m.reset_cache()
            store = {}
        elif o == "mode":
            flag = bool(op["s"] % 2)
            m.train(flag), ref.train(flag)
        elif o == "weights":
            with torch.no_grad():
                for a, b in ((m, 1), (ref, 2)):
                    g = torch.Generator().manual_seed(op["s"])
                    for k, p in a.named_parameters():
                        if k.startswith(("layers", "mixing")) and k.endswith("logits"):
                            p.add_(torch.randn(p.shape, generator=g))
        t.label(o)
    # what is still stored at the end of the history
    keys = sorted(store)
    for i in keys if len(keys) <= 12 else keys[:4] + keys[len(keys) // 2 - 2 : len(keys) // 2 + 2] + keys[-4:]:
        exp = ref(store[i][0].clone(), **store[i][1])
        got = m(torch.zeros_like(store[i][0]), cache_index=i)
        t.ok(same(got, exp), lambda: f"at the end index {i} gives {got.flatten()[:9].tolist()}…, the first input stored under this index gives {exp.flatten()[:9].tolist()}…")


SUBS = [Sub("histories", st_case, run, quick=1800, desc="every cached forward equals the uncached forward of the first input stored under its index (current sum weights)")]
