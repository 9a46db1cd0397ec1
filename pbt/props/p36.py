"""P36: runs keep their files apart, seeds determine the random streams, and the small run utilities compute what they are named for."""
import contextlib
import datetime
import io
import json
import math
import os
import random
import shutil
import tempfile
import types

import numpy as np
import torch
from hypothesis import strategies as st

from ..core import Sub

RULE = ("A case is a generated directory history (names, tags, timestamps, pre-existing files), a seed or pair of seeds, a table of losses or a "
        "solver configuration. Non-trivial: at least two operations or values.")
ASSUMPTIONS = ["every file lives in a scratch directory, which is also the working directory of the case",
               "a name that is already taken gets a suffix; which one is left open"]
NAME = st.text(alphabet="abcXYZ019-._", min_size=1, max_size=6).filter(lambda s: s.strip(".") == s and s not in (".", ".."))


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="p36-")
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def tree(d):
    r = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            r[os.path.relpath(os.path.join(root, x), d)] = None
        for x in files:
            with open(os.path.join(root, x), "rb") as f:
                r[os.path.relpath(os.path.join(root, x), d)] = f.read()
    return r


# ------------------------------------------------------------ directories
@st.composite
def st_dirs(draw):
    ops = []
    any_name = globals()["NAME"]
    few = draw(st.lists(any_name, min_size=1, max_size=2))  # names drawn from few candidates, so that runs meet
    NAME = st.sampled_from(few) if draw(st.booleans()) else any_name
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["base", "base", "results", "results", "ensure", "mkdir", "data", "args"]))
        op = {"k": k}
        if k == "base":
            op.update(ts=draw(st.integers(0, 2 * 10**9)), tag=draw(st.none() | NAME), subs=draw(st.none() | st.lists(NAME, max_size=3)), debug=draw(st.booleans()), abs=draw(st.booleans()))
        elif k == "results":
            prev = [o for o in ops if o["k"] == "results"]
            if prev and draw(st.booleans()):  # the same run again
                op.update(prev[-1], rm=draw(st.booleans()), again=draw(st.booleans()))
            else:
                op.update(exp=draw(NAME), tag=draw(st.none() | NAME), ds=draw(NAME), debug=draw(st.booleans()), rm=draw(st.booleans()), again=draw(st.booleans()))
        elif k == "ensure":
            op.update(parts=draw(st.lists(NAME, min_size=1, max_size=4)), slash=draw(st.booleans()), abs=draw(st.booleans()))
        elif k == "mkdir":
            op.update(parts=draw(st.lists(NAME, min_size=1, max_size=4)), file=draw(st.booleans()))
        elif k == "data":
            op.update(ds=draw(NAME))
        else:
            op.update(v=draw(st.dictionaries(NAME, st.none() | st.integers(-9, 9) | st.floats(-5, 5) | st.text(max_size=4) | st.lists(st.integers(0, 3), max_size=2), max_size=4)))
        ops.append(op)
    return {"ops": ops}


def run_dirs(case, t):
    import exp_utils as X

    t.nontrivial(len(case["ops"]) > 1)
    home = os.environ.get("HOME")
    with scratch() as d:
        try:
            os.environ["HOME"] = d
            for i, op in enumerate(case["ops"]):
                k = op["k"]
                t.label(k)
                before = tree(d)
                made = set()

                def expect(path):  # directory and all its parents
                    path = os.path.normpath(path)
                    while path not in ("", ".", "/"):
                        made.add(path)
                        path = os.path.dirname(path)

                try:
                    if k == "base":
                        root = os.path.join(d, "out") if op["abs"] else "out"
                        got = X.generate_run_base_dir(root, timestamp=op["ts"], tag=op["tag"], sub_dirs=op["subs"], debug=op["debug"])
                        name = datetime.datetime.fromtimestamp(op["ts"]).strftime("%y%m%d_%H%M") + ("_" + op["tag"] if op["tag"] is not None else "") + ("_debug" if op["debug"] else "")
                        rel = os.path.join("out", name, *(op["subs"] or []))
                        t.ok(got == os.path.join(root, name, *(op["subs"] or [])) + "/", f"run directory {got!r}")
                        expect(rel)
                    elif k == "results":
                        name = ("unnamed" if op["tag"] is None else op["tag"]) + ("_debug" if op["debug"] else "")
                        rel = os.path.join("res", "simple-einet", op["exp"], op["ds"], name)
                        there = os.path.exists(rel)
                        got = X.make_results_dir("res", op["exp"], op["tag"], op["ds"], debug=op["debug"], remove_if_exists=op["rm"])
                        t.ok(got.endswith("/") and os.path.isdir(got), f"results directory {got!r} does not exist")
                        if not there or not op["rm"]:
                            t.ok(got == rel + "/", f"results directory {got!r}, expected {rel + '/'!r}")
                        else:
                            t.ok(os.path.realpath(got) != os.path.realpath(rel) and os.path.dirname(got[:-1]) == os.path.dirname(rel), f"results directory {got!r} of an earlier run is reused")
                            t.label("name taken")
                            new = os.path.relpath(os.path.realpath(got), os.path.realpath(d))
                            t.ok(new not in before, f"results directory {got!r} of an earlier run is reused")
                        expect(os.path.relpath(os.path.realpath(got), os.path.realpath(d)))
                        if op["again"]:
                            with open(os.path.join(got, "keep.txt"), "w") as f:
                                f.write("x%d" % i)
                            before = tree(d)
                            got2 = X.make_results_dir("res", op["exp"], op["tag"], op["ds"], debug=op["debug"], remove_if_exists=False)
                            t.ok(got2 == rel + "/", f"existing results directory not returned: {got2!r}")
                            expect(rel)
                    elif k == "ensure":
                        p = os.path.join(*op["parts"]) + ("/" if op["slash"] else "")
                        q = os.path.join(d, p) if op["abs"] else p
                        X.ensure_dir(q)
                        X.ensure_dir(q)
                        rel = os.path.dirname(p)
                        t.ok(rel == "" or os.path.isdir(os.path.join(d, rel)), f"ensure_dir({q!r}): {rel!r} missing")
                        expect(rel)
                    elif k == "mkdir":
                        p = os.path.join(d, "m", *op["parts"])
                        if op["file"] and not os.path.exists(p):
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                            with open(p, "w") as f:
                                f.write("f")
                            before = tree(d)
                        blocked = os.path.isfile(p)
                        try:
                            X.mkdir_p(p)
                            X.mkdir_p(p)
                            t.ok(not blocked and os.path.isdir(p), f"mkdir_p over a file does not raise ({p!r})")
                            expect(os.path.relpath(p, d))
                        except OSError:
                            if not blocked:
                                raise
                    elif k == "data":
                        got = X.get_data_dir(op["ds"])
                        t.ok(got == os.path.join(d, "data", "simple-einet-diff-sampling", op["ds"]) and os.path.isdir(got), f"data directory {got!r}")
                        expect(os.path.relpath(got, d))
                    else:
                        os.makedirs("a", exist_ok=True)
                        before = tree(d)
                        X.save_args("a", types.SimpleNamespace(**op["v"]))
                        with open("a/args.json") as f:
                            t.ok(json.load(f) == json.loads(json.dumps(op["v"])), "saved arguments differ")
                        before["a/args.json"] = tree(d)["a/args.json"]
                except (FileExistsError, NotADirectoryError):
                    # a file of an earlier operation is in the way: refusing is right, as long as nothing is overwritten
                    after = tree(d)
                    blockers = [p for p, v in before.items() if v is not None and p != "a/args.json"]
                    t.ok(blockers and all(after.get(p) == v for p, v in before.items()), f"{k} raised FileExistsError with no file in the way, or changed files")
                    continue
                after = tree(d)
                lost = [p for p, v in before.items() if after.get(p, 0) != v]
                t.ok(not lost, f"{k}: existing {lost[:3]} removed or changed")
                extra = [p for p in after if p not in before and os.path.normpath(p) not in made]
                t.ok(not extra, f"{k}: unexpected {extra[:3]} created")
        finally:
            if home is None:
                os.environ.pop("HOME", None)
            else:
                os.environ["HOME"] = home


# ------------------------------------------------------------ seeds
@st.composite
def st_seed(draw):
    return {"a": draw(st.integers(0, 2**32 - 1)), "b": draw(st.integers(0, 2**32 - 1)), "w": draw(st.lists(st.integers(0, 64), min_size=2, max_size=4, unique=True)),
            "base": draw(st.integers(0, 2**63 - 1) | st.integers(0, 2**32)), "none": draw(st.integers(0, 5)) == 0}


def streams():
    return [random.random(), random.randrange(10**9)], [float(np.random.rand()), int(np.random.randint(10**9))], torch.rand(3).tolist() + torch.randint(10**9, (2,)).tolist()


def run_seed(case, t):
    import exp_utils as X

    t.nontrivial(case["a"] != case["b"])
    keep = os.environ.get("PYTHONHASHSEED")
    try:
        X.seed_all_rng(case["a"])
        t.ok(os.environ.get("PYTHONHASHSEED") == str(case["a"]), "hash seed for child processes")
        one = streams()
        streams()
        X.seed_all_rng(case["a"])
        two = streams()
        for n, p, q in zip(("python", "numpy", "torch"), one, two):
            t.ok(p == q, f"the {n} stream is not determined by the seed")
        random.seed(case["a"])
        np.random.seed(case["a"])
        torch.manual_seed(case["a"])
        for n, p, q in zip(("python", "numpy", "torch"), one, streams()):
            t.ok(p == q, f"the {n} stream is not the one of seed {case['a']}")
        if case["a"] != case["b"]:
            X.seed_all_rng(case["b"])
            for n, p, q in zip(("python", "numpy", "torch"), one, streams()):
                t.ok(p != q, f"the {n} streams of two seeds are equal")
        if case["none"]:
            t.label("no seed")
            X.seed_all_rng(case["a"])
            X.seed_all_rng()
            p = streams()
            seen = [p]
            for _ in range(4):
                X.seed_all_rng(None)
                seen.append(streams())
            t.ok(len({str(s[1]) for s in seen}) > 1 and len({str(s[2]) for s in seen}) > 1, "without a seed the streams are always the same")
            t.ok(p[1] != one[1], "without a seed the stream is that of an earlier seed")
        # data loader workers
        res = {}
        for w in case["w"]:
            torch.manual_seed(case["base"])
            X.worker_init_reset_seed(w)
            res[w] = streams()
            torch.manual_seed(case["base"])
            X.worker_init_reset_seed(w)
            t.ok(res[w] == streams(), f"worker {w} is not determined by the global seed")
        for j, n in enumerate(("python", "numpy", "torch")):
            t.ok(len({str(r[j]) for r in res.values()}) == len(case["w"]), f"two of the workers {case['w']} share their {n} stream")
        torch.manual_seed((case["base"] + 1) % 2**63)
        X.worker_init_reset_seed(case["w"][0])
        other = streams()
        t.ok(all(p != q for p, q in zip(other, res[case["w"][0]])), "the streams of a worker do not depend on the global seed")
    finally:
        if keep is None:
            os.environ.pop("PYTHONHASHSEED", None)
        else:
            os.environ["PYTHONHASHSEED"] = keep


# ------------------------------------------------------------ failures
@st.composite
def st_fail(draw):
    return {"name": draw(NAME), "slash": draw(st.booleans()), "rel": draw(st.booleans()), "files": draw(st.dictionaries(NAME.filter(lambda s: s != "error.txt"), st.text(max_size=5), max_size=3)),
            "exc": draw(st.sampled_from(["ValueError", "KeyError", "RuntimeError", "FloatingPointError"])), "msg": draw(st.text(alphabet="abc xyz 123", min_size=1, max_size=9)),
            "how": draw(st.sampled_from(["exception", "interrupt"])),
            "loss": draw(st.lists(st.sampled_from(["0", "1.5", "-3e30", "nan", "inf", "-inf", "2", "1e-40"]), min_size=1, max_size=4)), "nd": draw(st.integers(0, 2)), "it": draw(st.integers(0, 9999))}


def run_fail(case, t):
    import exp_utils as X

    t.nontrivial(bool(case["files"]))
    t.label(case["how"])
    with scratch() as d:
        src = os.path.join(d, "runs", case["name"])
        os.makedirs(src)
        os.makedirs(os.path.join(d, "runs", case["name"] + "x"))
        for n, v in case["files"].items():
            with open(os.path.join(src, n), "w") as f:
                f.write(v)
        arg = (os.path.join("runs", case["name"]) if case["rel"] else src) + ("/" if case["slash"] else "")
        before = tree(src)
        if case["how"] == "exception":
            exc = {"ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError, "FloatingPointError": FloatingPointError}[case["exc"]](case["msg"])

            def broken_step():
                raise exc

            try:
                broken_step()
            except Exception as e:
                err = e
            try:
                X.catch_exception(arg, err)
            except Exception as e:
                t.ok(e is exc, f"another exception is raised: {type(e).__name__}: {e}")
            else:
                t.fail("the exception is swallowed")
            dst = src + "_error"
        else:
            X.catch_kb_interrupt(arg)
            dst = src + "_interrupted"
        t.ok(not os.path.exists(src) and os.path.isdir(dst), f"run directory not renamed: {sorted(os.listdir(os.path.join(d, 'runs')))}")
        after = tree(dst)
        if case["how"] == "exception":
            txt = after.pop("error.txt", b"").decode()
            t.ok(case["msg"].strip() in txt and "broken_step" in txt, f"error report {txt!r}")
        t.ok(after == before, f"files after renaming {sorted(after)}, before {sorted(before)}")
        t.ok(sorted(os.listdir(d)) == ["runs"] and sorted(os.listdir(os.path.join(d, "runs"))) == sorted([case["name"] + "x", os.path.basename(dst)]), "other files were touched")
    v = torch.tensor([float(s) for s in case["loss"]])
    v = v[0] if case["nd"] == 0 else v if case["nd"] == 1 else v[None]
    bad = not all(math.isfinite(u) for u in v.flatten().tolist())
    try:
        X.detect_anomaly(v, case["it"])
    except FloatingPointError as e:
        t.ok(bad, f"a finite loss {v.tolist()} is reported as anomaly")
        t.ok(str(case["it"]) in str(e), "the iteration is not reported")
    else:
        t.ok(not bad, f"the loss {v.tolist()} is not reported as anomaly")


# ------------------------------------------------------------ numbers
@st.composite
def st_misc(draw):
    ws = draw(st.integers(1, 8))
    return {"epochs": draw(st.integers(1, 60)), "losses": draw(st.dictionaries(NAME, st.floats(-1e4, 1e4), max_size=4)), "period": draw(st.integers(1, 50)),
            "scale": draw(st.sampled_from([0.2, 0.5, 1.0])), "ar": draw(st.none() | st.sampled_from([0.5, 0.8, 2.0])), "ws": draw(st.sampled_from([0, ws, ws])), "nw": draw(st.sampled_from([ws, draw(st.integers(1, 16))])),
            "bs": draw(st.integers(1, 64)), "lr": draw(st.sampled_from([0.1, 1e-3])), "mi": draw(st.integers(100, 90000)), "wu": draw(st.integers(0, 2000)), "ev": draw(st.integers(1, 1000)),
            "cp": draw(st.integers(1, 1000)), "frozen": draw(st.booleans()), "off": draw(st.integers(0, 3)) == 0,
            "layers": draw(st.lists(st.tuples(st.integers(1, 5), st.integers(1, 5), st.booleans()), min_size=1, max_size=4)), "gpus": draw(st.lists(st.integers(0, 9), min_size=1, max_size=4)),
            "grid": draw(st.lists(st.integers(1, 5), min_size=2, max_size=2))}


class Cfg:
    """A stand-in for a yacs node."""

    def __init__(self, d):
        self.__dict__["_f"] = [False]
        for k, v in d.items():
            self.__dict__[k] = Cfg(v) if isinstance(v, dict) else v

    def _all(self):
        yield self
        for v in list(self.__dict__.values()):
            if isinstance(v, Cfg):
                yield from v._all()

    def __setattr__(self, k, v):
        if self._f[0]:
            raise AttributeError("frozen")
        self.__dict__[k] = v

    def is_frozen(self):
        return self._f[0]

    def freeze(self):
        for c in self._all():
            c._f[0] = True

    def defrost(self):
        for c in self._all():
            c._f[0] = False

    def dict(self):
        return {k: v.dict() if isinstance(v, Cfg) else v for k, v in self.__dict__.items() if k != "_f"}

    def clone(self):
        c = Cfg(self.dict())
        if self._f[0]:
            c.freeze()
        return c


def run_misc(case, t):
    import exp_utils as X
    from torch import nn

    t.nontrivial(True)
    E = case["epochs"]
    tau = [float(X.anneal_tau(e, E)) for e in range(0, 2 * E + 1)]
    t.ok(all(abs(v - max(0.5, math.exp(-e / E))) < 1e-9 for e, v in enumerate(tau)), f"temperatures {tau[:4]} of {E} epochs")
    got = X.loss_dict_to_str(case["losses"], case["period"])
    parts = got.split(", ") if got else []
    t.ok(len(parts) == len(case["losses"]), f"{got!r} for {len(case['losses'])} losses")
    for p, (k, v) in zip(parts, case["losses"].items()):
        n, u = p.rsplit(": ", 1)
        t.ok(n == k and abs(float(u) - v / case["period"]) <= 0.005 + 1e-9 * abs(v), f"{p!r} for {k} = {v} over {case['period']}")
    kw = {} if case["ar"] is None else {"aspect_ratio": case["ar"]}
    w, h = X.get_figsize(case["scale"], **kw)
    t.ok(abs(w - 5.78853 * case["scale"]) < 1e-6 and abs(h / w - (case["ar"] or 0.8)) < 1e-9, f"figure size {w, h}")
    mods = nn.Sequential(*[nn.Linear(a, b) for a, b, _ in case["layers"]])
    for m, (a, b, g) in zip(mods, case["layers"]):
        m.weight.requires_grad_(g)
    mods.register_buffer("bf", torch.zeros(7))
    t.ok(X.count_params(mods) == sum(a * b * g + b for a, b, g in case["layers"]), f"{X.count_params(mods)} parameters of {case['layers']}")
    old = os.environ.get("NVIDIA_VISIBLE_DEVICES")
    try:
        os.environ["NVIDIA_VISIBLE_DEVICES"] = ",".join(map(str, case["gpus"]))
        t.ok(X.num_gpus() == len(case["gpus"]), f"{X.num_gpus()} GPUs of {case['gpus']}")
    finally:
        if old is None:
            os.environ.pop("NVIDIA_VISIBLE_DEVICES", None)
        else:
            os.environ["NVIDIA_VISIBLE_DEVICES"] = old
    # scaling of the solver to the number of workers
    ref = case["ws"]
    bs = case["bs"] * max(ref, 1) + (1 if case["off"] else 0)
    c = Cfg({"system": {"reference_world_size": ref}, "train": {"batch_size": bs}, "solver": {"LR": case["lr"], "max_iter": case["mi"], "scheduler": {"warmuplr": {"iters": case["wu"]}}},
             "test": {"eval_period": case["ev"]}, "checkpoints": {"period": case["cp"]}})
    if case["frozen"]:
        c.freeze()
    before = c.dict()
    nw = case["nw"]
    try:
        r = X.auto_scale_workers(c, nw)
    except AssertionError:
        t.ok(ref not in (0, nw) and bs % ref != 0, "a valid reference size was rejected")
    else:
        if ref in (0, nw):
            t.label("unscaled")
            t.ok(r is c and r.dict() == before, "the configuration changes although nothing is to scale")
        else:
            t.label("scaled")
            t.ok(bs % ref == 0, "a batch size that is not divisible by the reference size was accepted")
            s = nw / ref
            d = r.dict()
            t.ok(d["train"]["batch_size"] == bs // ref * nw, f"batch size {d['train']['batch_size']} for {nw} workers, {bs} for {ref}")
            t.ok(abs(d["solver"]["LR"] - case["lr"] * s) < 1e-9, f"learning rate {d['solver']['LR']}")
            for n, v, o in (("max_iter", d["solver"]["max_iter"], case["mi"]), ("warm-up", d["solver"]["scheduler"]["warmuplr"]["iters"], case["wu"]), ("evaluation", d["test"]["eval_period"], case["ev"]), ("checkpoint", d["checkpoints"]["period"], case["cp"])):
                t.ok(v == int(round(o / s)), f"{n}: {v}, expected {o}/{s}")
            t.ok(d["system"]["reference_world_size"] == nw, "reference size not updated")
            t.ok(r.is_frozen() == case["frozen"], "frozen state lost")
    t.ok(c.dict() == before and c.is_frozen() == case["frozen"], "the given configuration was changed")
    # sample sheets
    with scratch() as d:
        calls = []
        X.save_samples(lambda n: calls.append(n) or torch.rand(n, 1, 4, 4), d, num_samples=case["grid"][0], nrow=case["grid"][1])
        t.ok(calls and set(calls) == {case["grid"][0]} and sorted(os.listdir(d)) == [f"{i}.png" for i in range(len(calls))], f"sample sheets {sorted(os.listdir(d))}")


SUBS = [
    Sub("dirs", st_dirs, run_dirs, quick=1500, desc="histories of directory operations against a model of the file tree"),
    Sub("seeds", st_seed, run_seed, quick=800, desc="random streams of all generators per seed and worker"),
    Sub("failures", st_fail, run_fail, quick=1200, desc="renaming of failed runs, anomaly detection"),
    Sub("numbers", st_misc, run_misc, quick=600, desc="temperature schedule, parameter counts, worker scaling, reports"),
]
