"""P31: data sets split, scale and iterate without loss or leakage."""
import contextlib
import csv
import gzip
import itertools
import os
import shutil
import struct
import tempfile
import types
from unittest import mock

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, stats
from ..core import Sub

RULE = ("A case is a data set name with generated source data (tables handed to the loader in place of the bundled/downloaded ones, CSV, IDX or image files in a scratch folder), a size, a normalisation flag, or a sampler "
        "(size, seed, shuffling, prefix length). Non-trivial: the data set has at least two classes or two parts, or the sampler runs over more than one epoch.")
ASSUMPTIONS = ["data sets which need a download are read through stand-ins of the third-party loader (scikit-learn fetchers, torchvision classes) holding generated rows",
               "sizes of SVHN and LSUN stand-ins are multiples of ten, like the rounding the published sizes happen to satisfy",
               "mnist-bin (download by curl into the working directory) is not exercised",
               "synthetic data: means of each class within six standard errors"]

TABLES = {"wine": ("load_wine", 13, 3), "breast_cancer": ("load_breast_cancer", 30, 2), "covtype": ("fetch_covtype", 54, 7)}


def data_module():
    import simple_einet.data as d

    return d


@contextlib.contextmanager
def scratch():
    p = tempfile.mkdtemp(prefix="p31-")
    try:
        yield p
    finally:
        shutil.rmtree(p)


@contextlib.contextmanager
def replaced(name, fn):
    """Replace a scikit-learn loader wherever the data module may look it up."""
    import sklearn.datasets

    d = data_module()
    with contextlib.ExitStack() as s:
        s.enter_context(mock.patch.object(sklearn.datasets, name, fn))
        if hasattr(d, name):
            s.enter_context(mock.patch.object(d, name, fn))
        yield


@contextlib.contextmanager
def no_downloads():
    d = data_module()

    def refuse(*a, **k):
        raise AssertionError("download attempted")

    with mock.patch("subprocess.run", refuse), mock.patch("os.system", refuse):
        yield


def rng_state():
    import random

    return torch.get_rng_state().numpy().tobytes(), np.random.get_state()[1].tobytes(), random.getstate()


def parts_of(ds):
    return [np.asarray(torch.stack([torch.as_tensor(d[i][0]) for i in range(len(d))]).double()) for d in ds], [np.asarray([int(d[i][1]) for i in range(len(d))]) for d in ds]


def check_meta(name, parts, labels, t, used=None):
    """Shapes, classes, and: a circuit sized by the metadata can evaluate the data."""
    d = data_module()
    shape = tuple(d.get_data_shape(name))
    for p in parts:
        t.ok(int(np.prod(p.shape[1:])) == int(np.prod(shape)) and (p.ndim == 2 or tuple(p.shape[1:]) == shape), f"{name}: items of shape {p.shape[1:]}, announced {shape}")
    k = d.get_data_num_classes(name)
    ls = np.concatenate(labels)
    if k:
        t.ok(bool((ls >= 0).all()) and int(ls.max()) < k, f"{name}: labels up to {int(ls.max())}, announced {k} classes")
        if used is not None:
            t.ok(k == used, f"{name}: {used} classes in the data, announced {k}")


def same(a, b):
    return all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


# ------------------------------------------------------------ tables
@st.composite
def st_table(draw):
    name = draw(st.sampled_from(list(TABLES) + ["digits", "digits"]))
    K = 10 if name == "digits" else TABLES[name][2]
    return {"name": name, "n": draw(st.integers(max(40, 14 * K), 260)), "s": draw(gen.SEED), "const": draw(st.integers(0, 3)) == 0, "skew": draw(st.booleans()), "normalize": draw(st.booleans()),
            "off": draw(st.sampled_from([0, 1])), "blocks": draw(st.booleans())}


def table(case):
    """Rows with a unique first feature (its rank identifies the row) and every class present often enough to be split."""
    name = case["name"]
    F, K = (64, 10) if name == "digits" else TABLES[name][1:]
    r = np.random.RandomState(case["s"] % 2**31)
    n = case["n"]
    y = np.concatenate([np.repeat(np.arange(K), 12), r.randint(0, 2 if case["skew"] else K, n - 12 * K)]) if n >= 12 * K else np.arange(n) % K
    y = np.sort(y) if case["blocks"] else r.permutation(y)
    if name == "digits":
        X = r.randint(0, 17, (n, F)).astype(float)
        ids = np.arange(n)
        X[:, 0], X[:, 1], X[:, 2] = ids % 17, ids // 17 % 17, 16.0
        return X, y
    X = r.randn(n, F) * np.exp(r.randn(F)) + 10 * r.randn(F)
    X[:, 0] = r.permutation(n) * 0.37 - 5
    if case["const"]:
        X[:, 1] = 4.0
    if name == "covtype":
        y = y + case["off"]  # labels start at one in the original
    return X, y


def run_table(case, t):
    d = data_module()
    name = case["name"]
    X, y = table(case)
    t.label(name, "const" if case["const"] else "varying", "skew" if case["skew"] else "balanced")
    t.nontrivial(True)
    keep = X.copy(), y.copy()

    def loader(*a, return_X_y=False, **kw):
        b = types.SimpleNamespace(data=X.copy(), target=y.copy())
        return (b.data, b.target) if return_X_y else b

    with replaced("load_digits" if name == "digits" else TABLES[name][0], loader), no_downloads():
        gen.seed_all(case["s"])
        s0 = rng_state()
        ds = d.get_datasets(name, "/nonexistent", case["normalize"])
        t.ok(rng_state() == s0, "the global random state was changed")
        gen.seed_all(case["s"] + 1)
        again = d.get_datasets(name, "/nonexistent", not case["normalize"])
    assert np.array_equal(X, keep[0])
    parts, labels = parts_of(ds)
    p2, l2 = parts_of(again)
    t.ok(same(parts, p2) and same(labels, l2), "a second call returns other data")
    n = len(X)
    sizes = [len(p) for p in parts]
    t.ok(sum(sizes) == n and min(sizes) > 0, f"{n} rows split into {sizes}")
    t.ok(abs(sizes[2] - 0.1 * n) <= 1.01 and abs(sizes[1] - 0.1 * (n - sizes[2])) <= 1.01, f"{n} rows split into train/validation/test of {sizes}")
    check_meta(name, parts, labels, t, len(set(y.tolist())))
    flat = [p.reshape(len(p), -1) for p in parts]
    allx = np.concatenate(flat)
    ally = np.concatenate(labels)
    y0 = y - y.min()
    if name == "digits":
        ids = np.rint(allx[:, 0] * 16 + 17 * np.rint(allx[:, 1] * 16)).astype(int)
        want = X / 16.0
    else:
        ids = np.argsort(np.argsort(X[:, 0]))  # rank of each row
        byrank = np.argsort(X[:, 0])
        col = np.rint((allx[:, 0] - allx[:, 0].min()) / max(1e-9, (allx[:, 0].max() - allx[:, 0].min())) * (n - 1)).astype(int)
        ids = byrank[np.clip(col, 0, n - 1)]
        tr = ids[: sizes[0]]
        mu, sd = X[tr].mean(0), X[tr].std(0)
        sd[sd < 1e-12] = 1.0
        want = (X - mu) / sd
    t.ok(sorted(ids.tolist()) == list(range(n)), f"{name}: the parts are not a partition of the rows")
    err = np.abs(allx - want[ids])
    t.ok(bool((err <= 2e-3 * (1 + np.abs(want[ids]))).all()), f"{name}: values are not those of the data scaled by training statistics (worst error {err.max():.4g})")
    t.ok(np.array_equal(ally, y0[ids]), f"{name}: labels do not belong to their rows")
    for k in range(int(y0.max()) + 1):
        c = (y0 == k).sum()
        got = [(l == k).sum() for l in labels]
        for q, s in zip(got, sizes):
            t.ok(abs(q - c * s / n) <= 2.5, f"{name}: class {k} with {c} rows is split {got}")


# ------------------------------------------------------------ bundled data
def st_real():
    return st.fixed_dictionaries({"name": st.sampled_from(["wine", "breast_cancer", "digits"]), "normalize": st.booleans(), "dir": st.sampled_from(["/nonexistent", "."]), "bs": st.sampled_from([7, 64])})


def run_real(case, t):
    import sklearn.datasets
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.normal import Normal

    d = data_module()
    name = case["name"]
    src = getattr(sklearn.datasets, "load_" + name)()
    t.label(name)
    t.nontrivial(True)
    ds = d.get_datasets(name, case["dir"], case["normalize"])
    parts, labels = parts_of(ds)
    check_meta(name, parts, labels, t, len(set(src.target.tolist())))
    t.ok(sum(map(len, parts)) == len(src.data), "rows lost")
    t.ok(np.array_equal(np.bincount(np.concatenate(labels)), np.bincount(src.target)), "labels lost")
    shape = d.get_data_shape(name)
    net = Einet(EinetConfig(num_features=shape.num_pixels, num_channels=shape.channels, depth=1, num_classes=d.get_data_num_classes(name), leaf_type=Normal))
    with torch.no_grad():
        out = net(torch.tensor(parts[2]).float())
    t.ok(tuple(out.shape) == (len(parts[2]), d.get_data_num_classes(name)) and bool(torch.isfinite(out).all()), "a circuit sized by the metadata cannot evaluate the data")
    t.ok(d.is_1d_data(name) == (shape.width == 1) and d.is_classification_data(name), "kind of data")


# ------------------------------------------------------------ 20 newsgroups, KDD cup
@st.composite
def st_text(draw):
    return {"n": draw(st.integers(200, 260)), "m": draw(st.integers(60, 80)), "F": draw(st.sampled_from([80, 600])), "s": draw(gen.SEED)}


def run_text(case, t):
    import scipy.sparse as sp

    d = data_module()
    r = np.random.RandomState(case["s"] % 2**31)
    data = {}
    for sub, n in (("train", case["n"]), ("test", case["m"])):
        X = np.abs(r.randn(n, case["F"])) * (r.rand(n, case["F"]) < 0.3) + 1e-3
        data[sub] = sp.csr_matrix(X), np.arange(n) % 20
    t.nontrivial(True)
    t.label("F=%d" % case["F"])

    def fetch(*a, subset="train", return_X_y=False, **kw):
        return data[subset]

    res = []
    with replaced("fetch_20newsgroups_vectorized", fetch):
        for k in range(2):
            gen.seed_all(case["s"] + k)
            res.append(parts_of(d.get_datasets("20newsgroup", "/nonexistent", True)))
    (parts, labels), (p2, l2) = res
    t.ok(same(parts, p2) and same(labels, l2), "a second call returns other data")
    check_meta("20newsgroup", parts, labels, t, 20)
    t.ok(len(parts[2]) == case["m"] and len(parts[0]) + len(parts[1]) == case["n"], "rows lost")
    t.ok(np.array_equal(labels[2], data["test"][1]), "test rows are not those of the test data")
    t.ok(np.array_equal(np.bincount(np.concatenate(labels[:2]), minlength=20), np.bincount(data["train"][1], minlength=20)), "labels lost")
    tr = parts[0].reshape(len(parts[0]), -1)
    t.ok(bool((np.abs(tr.mean(0)) < 1e-3).all() and (np.abs(tr.std(0) - 1) < 1e-3).all()), "training data is not standardised")


@st.composite
def st_kdd(draw):
    return {"n": draw(st.integers(330, 420)), "s": draw(gen.SEED)}


def run_kdd(case, t):
    d = data_module()
    r = np.random.RandomState(case["s"] % 2**31)
    n = case["n"]
    t.nontrivial(True)
    X = np.empty((n, 41), dtype=object)
    X[:, :] = r.randint(0, 50, (n, 41)).astype(float)
    X[:, 0] = (r.permutation(n) * 1.0).tolist()
    cats = [r.permutation(np.arange(n) % k) for k in (3, 66, 11)]
    for j, c in enumerate(cats):
        X[:, 1 + j] = [b"v%02d" % v for v in c]
    y = np.array([b"c%02d" % v for v in r.permutation(np.arange(n) % 23)], dtype=object)
    with replaced("fetch_kddcup99", lambda *a, **k: (X.copy(), y.copy())):
        ds = d.get_datasets("kddcup99", "/nonexistent", True)
        again = d.get_datasets("kddcup99", "/nonexistent", True)
    parts, labels = parts_of(ds)
    p2, l2 = parts_of(again)
    t.ok(same(parts, p2) and same(labels, l2), "a second call returns other data")
    check_meta("kddcup99", parts, labels, t, 23)
    allx = np.concatenate([p.reshape(len(p), -1) for p in parts])
    col = allx[:, 0]
    ids = np.argsort(X[:, 0].astype(float))[np.clip(np.rint((col - col.min()) / (col.max() - col.min()) * (n - 1)).astype(int), 0, n - 1)]
    t.ok(sorted(ids.tolist()) == list(range(n)), "the parts are not a partition of the rows")
    num = X[:, [0] + list(range(4, 41))].astype(float)
    oh = [np.eye(k)[c] for k, c in zip((3, 66, 11), cats)]
    full = np.hstack([num] + oh)
    tr = ids[: len(parts[0])]
    mu, sd = full[tr].mean(0), full[tr].std(0)
    sd[sd < 1e-12] = 1.0
    t.ok(bool((np.abs(allx - ((full - mu) / sd)[ids]) < 2e-3 * (1 + np.abs(allx))).all()), "values are not those of the encoded data scaled by training statistics")
    t.ok(np.array_equal(np.concatenate(labels), np.array([int(v[1:]) for v in y])[ids]), "labels do not belong to their rows")


# ------------------------------------------------------------ binary density estimation benchmark
@st.composite
def st_debd(draw):
    d = ["nltcs", "msnbc", "kdd", "plants", "jester", "baudio", "bnetflix", "accidents", "tretail", "pumsb_star", "dna", "kosarek", "msweb", "book", "tmovie", "cwebkb", "cr52", "c20ng", "bbc", "ad", "voting", "moviereview"]
    return {"name": draw(st.sampled_from(d)), "sizes": draw(st.lists(st.integers(1, 9), min_size=3, max_size=3)), "s": draw(gen.SEED), "normalize": draw(st.booleans())}


def run_debd(case, t):
    d = data_module()
    name = case["name"]
    F = d.get_data_shape(name).height
    r = np.random.RandomState(case["s"] % 2**31)
    src = [r.randint(0, 2, (n, F)) for n in case["sizes"]]
    t.label(name)
    t.nontrivial(True)
    wd = os.getcwd()
    with scratch() as p, no_downloads():
        q = os.path.join(p, "debd", "datasets", name)
        os.makedirs(q)
        for sub, X in zip(("train", "valid", "test"), src):
            with open(os.path.join(q, f"{name}.{sub}.data"), "w", newline="") as f:
                csv.writer(f).writerows(X.tolist())
        ds = d.get_datasets(name, p, case["normalize"])
    t.ok(os.getcwd() == wd, "working directory changed")
    parts, labels = parts_of(ds)
    check_meta(name, parts, labels, t)
    for sub, a, X, l in zip(("train", "validation", "test"), parts, src, labels):
        t.ok(a.shape[0] == len(X) and np.array_equal(a.reshape(len(X), F), X), f"{name}: {sub} rows are not those of the {sub} file")
        t.ok(len(l) == len(X), "labels")
    sizes = d.DEBD_shapes[name]
    t.ok(sizes["train"][1] == sizes["valid"][1] == sizes["test"][1] == F and d.is_1d_data(name) and not d.is_classification_data(name) and d.get_data_num_classes(name) == 0, "metadata of the benchmark")


# ------------------------------------------------------------ images
@st.composite
def st_image(draw):
    name = draw(st.sampled_from(["mnist", "mnist-16", "mnist-32", "fmnist", "fmnist-16", "fmnist-32", "cifar", "svhn", "svhn-extra", "celeba", "celeba-small", "celeba-tiny", "flowers", "lfw", "lsun", "tiny-imagenet", "fake"]))
    return {"name": name, "n": draw(st.integers(1, 4)) * 10, "extra": draw(st.integers(0, 9)), "m": draw(st.integers(1, 12)), "normalize": draw(st.booleans()), "s": draw(gen.SEED)}


def write_idx(path, a):
    with open(path, "wb") as f:
        f.write(struct.pack(">HBB", 0, 8, a.ndim) + struct.pack(">" + "I" * a.ndim, *a.shape) + a.tobytes())


class Stub(torch.utils.data.Dataset):
    """Stand-in of a torchvision data set: constant-colour images whose grey level identifies the row."""

    made = []
    sizes = {}

    def __init__(self, root=None, transform=None, split=None, train=None, classes=None, download=None, **kw):
        self.part = split or ("train" if train else "test" if train is not None else classes[0])
        self.transform = transform
        first, n = Stub.sizes[self.part]
        self.levels = np.arange(first, first + n)
        self.data = self.levels[:, None, None, None] * np.ones((1, 3, 4, 4))
        self.length = n

    def __len__(self):
        return len(self.levels)

    def __getitem__(self, i):
        from PIL import Image

        v = int(self.levels[i])
        return self.transform(Image.fromarray(np.full((40, 50, 3), v, dtype=np.uint8))), v % 10


def run_image(case, t):
    d = data_module()
    name, n, m, norm = case["name"], case["n"], case["m"], case["normalize"]
    if name not in ("svhn", "svhn-extra", "lsun"):
        n += case["extra"]
    t.label(name, "normalised" if norm else "raw")
    t.nontrivial(True)
    # grey level -> part
    with scratch() as p, no_downloads(), contextlib.ExitStack() as stack:
        own_val = False
        extra = 0
        if name.startswith(("mnist", "fmnist")):
            raw = os.path.join(p, "MNIST" if name.startswith("mnist") else "FashionMNIST", "raw")
            os.makedirs(raw)
            for pre, first, k in (("train", 0, n), ("t10k", n, m)):
                a = np.arange(first, first + k).astype(np.uint8)
                write_idx(os.path.join(raw, f"{pre}-images-idx3-ubyte"), np.repeat(np.repeat(a[:, None, None], 28, 1), 28, 2))
                write_idx(os.path.join(raw, f"{pre}-labels-idx1-ubyte"), (a % 10).astype(np.uint8))
        elif name == "tiny-imagenet":
            from PIL import Image

            own_val = True
            k = 0
            for sub, c in (("train", n), ("val", 3), ("test", m)):
                for i in range(c):
                    q = os.path.join(p, "tiny-imagenet-200", sub, f"c{k % 10}")
                    os.makedirs(q, exist_ok=True)
                    Image.fromarray(np.full((64, 64, 3), k, dtype=np.uint8)).save(os.path.join(q, f"{k:04d}.png"))
                    k += 1
        elif name != "fake":
            cls = {"cifar": "CIFAR10", "svhn": "SVHN", "svhn-extra": "SVHN", "celeba": "CelebA", "celeba-small": "CelebA", "celeba-tiny": "CelebA", "flowers": "Flowers102", "lfw": "LFWPeople", "lsun": "LSUN"}[name]
            own_val = cls in ("CelebA", "Flowers102")
            v = 3 if own_val else 0
            extra = 5 if name == "svhn-extra" else 0
            Stub.sizes = {"train": (0, n), "valid": (n, v), "val": (n, v), "test": (n + v, m), "extra": (n + v + m, extra), "church_outdoor_train": (0, n), "church_outdoor_val": (n, m)}
            stack.enter_context(mock.patch.object(d, cls, Stub))
        results = []
        for k in range(2):
            gen.seed_all(case["s"] + k)
            ds = d.get_datasets(name, p, norm)
            if name == "fake":
                items = [d_[0] for d_ in ds]
                parts, labels = [np.asarray(i[0])[None] for i in items], [np.array([int(i[1])]) for i in items]
            else:
                parts, labels = parts_of(ds)
            results.append((parts, labels))
    (parts, labels), (p2, l2) = results
    t.ok(same(parts, p2) and same(labels, l2), "a second call returns other data")
    shape = tuple(d.get_data_shape(name))
    for q in parts:
        t.ok(tuple(q.shape[1:]) == shape, f"{name}: images of shape {q.shape[1:]}, announced {shape}")
    if d.get_data_num_classes(name) and name != "flowers":
        t.ok(d.get_data_num_classes(name) >= 10 and max(int(l.max()) for l in labels) < d.get_data_num_classes(name), "classes")
    if name == "fake":
        return
    levels = []
    for q, l in zip(parts, labels):
        f = q.reshape(len(q), -1)
        t.ok(bool((f.max(1) - f.min(1) < 1e-6).all()), "pixels were mixed up")
        g = f.mean(1)
        if norm:
            g = g * 0.5 + 0.5
        lv = np.rint(g * 255)
        t.ok(bool((np.abs(g * 255 - lv) < 1e-2).all()), f"{name}: pixel values are not level/255{' normalised to mean and scale one half' if norm else ''}")
        lv = lv.astype(int)
        t.ok(name == "tiny-imagenet" and len(levels) > 0 or np.array_equal(l, lv % 10), f"{name}: labels do not belong to their images")
        levels.append(lv)
    tr, va, te = [sorted(l.tolist()) for l in levels]
    if own_val:
        t.ok(tr == list(range(n)) and va == list(range(n, n + 3)) and te == list(range(n + 3, n + 3 + m)), f"{name}: parts do not come from their own sources")
    else:
        base = [v for v in tr if v < n]
        t.ok(sorted(base + va) == list(range(n)), f"{name}: training and validation are not a partition of the training source")
        t.ok(abs(len(va) - 0.1 * n) <= 0.51, f"{name}: {n} rows split into {len(base)} / {len(va)}")
        t.ok(te == list(range(n, n + m)), f"{name}: test rows are not those of the test source")
        t.ok([v for v in tr if v >= n] == list(range(n + m, n + m + extra)), f"{name}: extra rows")


# ------------------------------------------------------------ synthetic data
SYN = {"2-clusters": 2, "3-clusters": 3, "9-clusters": 9, "2-moons": 2, "circles": 2, "aniso": 3, "varied": 3}
CENTERS = {"2-clusters": ([[0, 0], [.5, .5]], .1), "3-clusters": ([[0, 0], [.5, .5], [.5, 0]], .05),
           "9-clusters": ([[0, 0], [.5, .5], [.5, 0], [0, .5], [.5, 1], [1, .5], [1, 1], [0, 1], [1, 0]], .1)}


@st.composite
def st_synth(draw):
    return {"tag": draw(st.sampled_from(list(SYN))), "n": draw(st.integers(20, 1500)), "s": draw(gen.SEED), "whole": draw(st.booleans())}


def run_synth(case, t):
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.normal import Normal

    d = data_module()
    name, n = "synth-" + case["tag"], case["n"]
    K = SYN[case["tag"]]
    t.label(case["tag"], "data set" if case["whole"] else "generate")
    t.nontrivial(True)
    gen.seed_all(case["s"])
    s0 = rng_state()
    X, y = d.generate_data(name, n_samples=n)
    t.ok(rng_state() == s0, "generation used the global random state")
    gen.seed_all(case["s"] + 1)
    X2, y2 = d.generate_data(name, n_samples=n)
    t.ok(torch.equal(X, X2) and torch.equal(y, y2), "a second call returns other data")
    t.ok(tuple(X.shape) == (n, 2) and tuple(y.shape) == (n,) and X.dtype == torch.float32 and y.dtype == torch.int64 and bool(torch.isfinite(X).all()), f"shapes {tuple(X.shape)}, {tuple(y.shape)}")
    cnt = torch.bincount(y, minlength=K)
    t.ok(len(cnt) == K and int(cnt.max() - cnt.min()) <= 1, f"classes {cnt.tolist()}")
    if case["tag"] in CENTERS:
        cs, sd = CENTERS[case["tag"]]
        for k, c in enumerate(cs):
            e = (X[y == k].mean(0) - torch.tensor(c).float()).abs().max()
            t.ok(float(e) < 6 * sd / int(cnt[k]) ** 0.5, f"class {k} is centred at {X[y == k].mean(0).tolist()}, not {c}")
    if case["tag"] == "circles":
        rad = X.norm(dim=1)
        for k, q in ((0, 1.0), (1, 0.5)):
            t.ok(abs(float(rad[y == k].mean()) - q) < 0.1, "radius of the circles")
    if not case["whole"]:
        return
    ds = d.get_datasets(name, "/nonexistent", True)
    gen.seed_all(case["s"] + 2)
    again = d.get_datasets(name, "/nonexistent", False)
    parts, labels = [np.asarray(q.tensors[0]) for q in ds], [np.asarray(q.tensors[1]) for q in ds]
    t.ok(same(parts, [np.asarray(q.tensors[0]) for q in again]) and same(labels, [np.asarray(q.tensors[1]) for q in again]), "a second call returns other data")
    check_meta(name, parts, labels, t, K)
    rows = [set(map(tuple, q.tolist())) for q in parts]
    for i, j in ((0, 1), (0, 2), (1, 2)):
        t.ok(not rows[i] & rows[j], f"{name}: {len(rows[i] & rows[j])} rows are shared by two of the training, validation and test parts")
    for l in labels:
        t.ok(set(l.tolist()) == set(range(K)), "a class is missing in a part")
    mus = [np.stack([q[l == k].mean(0) for k in range(K)]) for q, l in zip(parts, labels)]
    sds = np.stack([parts[0][labels[0] == k].std(0) for k in range(K)])
    for mu, l in zip(mus[1:], labels[1:]):
        se = sds * np.sqrt(1 / np.bincount(l)[:, None] + 1 / np.bincount(labels[0])[:, None])
        t.ok(bool((np.abs(mu - mus[0]) < 6 * se).all()), f"{name}: the parts do not follow the same distribution")
    shape = d.get_data_shape(name)
    net = Einet(EinetConfig(num_features=shape.num_pixels, num_channels=shape.channels, depth=1, num_classes=d.get_data_num_classes(name), leaf_type=Normal))
    with torch.no_grad():
        t.ok(tuple(net(torch.tensor(parts[1])).shape) == (len(parts[1]), K), "a circuit sized by the metadata cannot evaluate the data")
    t.ok(d.is_1d_data(name) and d.is_classification_data(name), "kind of data")


# ------------------------------------------------------------ unknown names
def run_unknown(case, t):
    d = data_module()
    t.nontrivial(True)
    for f in (lambda: d.get_datasets(case["name"], "/nonexistent", True), lambda: d.generate_data(case["name"]), lambda: d.get_data_shape(case["name"])):
        try:
            f()
        except Exception:
            continue
        if "synth" not in case["name"]:
            t.fail(f"unknown data set {case['name']} accepted")


def st_unknown():
    return st.fixed_dictionaries({"name": st.text("abcdefgh-_0123456789", min_size=1, max_size=8).map(lambda s: "x" + s)})


# ------------------------------------------------------------ sampler
@st.composite
def st_sampler(draw):
    return {"size": draw(st.sampled_from([1000, 4097, 9999, 33000, 70000])) if draw(st.integers(0, 39)) == 0 else draw(st.one_of(st.integers(1, 12), st.integers(1, 300))), "shuffle": draw(st.sampled_from([True, True, True, False])), "seed": draw(st.one_of(st.none(), st.integers(0, 3), st.integers(0, 2**31))),
            "epochs": draw(st.sampled_from([0.4, 1.0, 2.6, 5.0])), "s": draw(gen.SEED)}


def run_sampler(c, t):
    d = data_module()
    n = c["size"]
    k = int(n * c["epochs"]) + 1
    t.label("shuffle" if c["shuffle"] else "ordered", "seeded" if c["seed"] is not None else "unseeded")
    t.nontrivial(n > 1 and k > n)
    gen.seed_all(c["s"])
    s = d.TrainingSampler(n, shuffle=c["shuffle"], seed=c["seed"])
    s0 = rng_state()
    a = list(itertools.islice(iter(s), k))
    t.ok(rng_state() == s0, "the global random state was changed")
    t.ok(len(a) == k and all(isinstance(i, int) for i in a), "stream of indices")
    for e in range(0, k, n):
        blk = a[e : e + n]
        t.ok(len(set(blk)) == len(blk) and min(blk) >= 0 and max(blk) < n, f"epoch {e // n} is no permutation: {blk[:300]}")
        if not c["shuffle"]:
            t.ok(blk == list(range(len(blk))), "rows are not in order")
    gen.seed_all(c["s"] + 1)
    it1, it2 = iter(s), iter(d.TrainingSampler(size=n, shuffle=c["shuffle"], seed=c["seed"]))
    b1, b2 = [], []
    for _ in range(k):  # interleaved
        b1.append(next(it1))
        b2.append(next(it2))
    t.ok(b1 == a and b2 == a, "the stream is not determined by the seed")
    if c["shuffle"] and n >= 40:
        o = list(itertools.islice(iter(d.TrainingSampler(n, seed=(c["seed"] or 0) + 1)), n))
        t.ok(o != a[:n] or len(a) < n, "the stream does not depend on the seed")
        if len(a) >= 2 * n:
            t.ok(a[:n] != a[n : 2 * n], "every epoch uses the same order")
            # Independent orders share about one neighbourhood or place each (approximately Poisson)
            for e in range(1, len(a) // n):
                for f in range(e):
                    x, y = a[f * n : (f + 1) * n], a[e * n : (e + 1) * n]
                    pairs = {(x[i - 1], x[i]) for i in range(n)}
                    for name, z in (("", y), (" mirrored", y[::-1])):
                        same = sum((z[i - 1], z[i]) in pairs for i in range(n))
                        t.ok(same <= 18, f"epoch {e} follows the{name} order of epoch {f}: {same} of {n} neighbours are the same")
                        same = sum(i == j for i, j in zip(x, z))
                        t.ok(same <= 18, f"epoch {e} follows the{name} order of epoch {f}: {same} of {n} places are the same")
        if len(a) >= n:
            t.ok(a[:n] != list(range(n)), "the rows are not shuffled")


def st_uniform():
    return st.fixed_dictionaries({"size": st.integers(2, 4), "epoch": st.integers(0, 2), "base": st.integers(0, 10**6)})


def run_uniform(c, t):
    d = data_module()
    n, e = c["size"], c["epoch"]
    perms = {p: i for i, p in enumerate(itertools.permutations(range(n)))}
    t.nontrivial(True)

    def counts(num, seed):
        out = np.zeros(len(perms))
        for k in range(num):
            it = iter(d.TrainingSampler(n, seed=c["base"] + seed * 10**7 + k))
            out[perms[tuple(itertools.islice(it, e * n, (e + 1) * n))]] += 1
        return out

    ok, p = stats.two_stage(counts, np.ones(len(perms)), 600, 4000)
    t.ok(ok, f"orders of epoch {e} over {n} rows are not uniform: {p}")


# ------------------------------------------------------------ loaders
@st.composite
def st_loader(draw):
    return {"n": draw(st.integers(60, 160)), "bs": draw(st.sampled_from([1, 7, 16, 64, 500])), "loop": draw(st.booleans()), "seed": draw(st.integers(0, 1000)), "s": draw(gen.SEED), "epochs": draw(st.sampled_from([0.5, 1.5, 3.2])),
            "workers": draw(st.sampled_from([0] * 9 + [1, 2, 3]))}


def run_loader(c, t):
    d = data_module()
    X, y = table({"name": "wine", "n": c["n"], "s": c["s"], "const": False, "skew": False, "blocks": False, "off": 0})
    if c["workers"]:
        c = dict(c, bs=max(c["bs"], 7))
    t.label("loop" if c["loop"] else "epoch", "bs=%d" % c["bs"], "workers=%d" % c["workers"])
    t.nontrivial(c["bs"] < c["n"])
    with replaced("load_wine", lambda *a, **k: (X.copy(), y.copy())):
        ds = d.get_datasets("wine", "/nonexistent", True)
        gen.seed_all(c["s"])
        ls = d.build_dataloader("wine", "/nonexistent", c["bs"], c["workers"], c["loop"], True, c["seed"])
        gen.seed_all(c["s"] + 1)
        ls2 = d.build_dataloader(dataset_name="wine", data_dir="/nonexistent", batch_size=c["bs"], num_workers=c["workers"], loop=c["loop"], normalize=True, seed=c["seed"])
    t.ok(len(ls) == 3, "number of loaders")
    for q, l in zip(ds[1:], ls[1:]):  # in order, complete, once
        xs = [b for b in l]
        t.ok(all(len(b[0]) == c["bs"] for b in xs[:-1]), "batch sizes")
        t.ok(torch.equal(torch.cat([b[0] for b in xs]), q.tensors[0]) and torch.equal(torch.cat([b[1] for b in xs]), q.tensors[1]), "an evaluation loader does not iterate its data in order exactly once")
    tr = ds[0].tensors[0].flatten(1)
    n = len(tr)

    def rows(l, k):
        out = []
        for xb, yb in l:
            t.ok(len(xb) == c["bs"] or not c["loop"], "batch size")
            for xr, yr in zip(xb.flatten(1), yb):
                i = int((tr - xr).abs().sum(1).argmin())
                t.ok(torch.equal(tr[i], xr) and int(ds[0].tensors[1][i]) == int(yr), "a row of the training loader is not in the training data")
                out.append(i)
            if len(out) >= k:
                break
        return out

    if not c["loop"]:
        a = rows(ls[0], 10**9)
        t.ok(sorted(a) == list(range(n)), "an epoch of the training loader is not the training data")
        t.ok(a != list(range(n)), "the training data is not shuffled")
    else:
        k = int(n * c["epochs"]) + 1
        a, b = rows(ls[0], k), rows(ls2[0], k)
        t.ok(a == b, "the training stream is not determined by the seed")
        t.ok(len(a) >= k, "the training stream ends")
        for e in range(0, len(a), n):
            blk = a[e : e + n]
            t.ok(len(set(blk)) == len(blk), f"epoch {e // n} of the training stream is no permutation")
        o = rows(d._make_loader(c["bs"], 0, ds[0], loop=True, shuffle=True, seed=c["seed"] + 1), n)
        t.ok(o[:n] != a[:n], "the training stream does not depend on the seed")


SUBS = [
    Sub("tables", st_table, run_table, quick=1200, desc="partition, scaling by training statistics, labels, stratification and determinism of tabular data sets with generated contents"),
    Sub("bundled", st_real, run_real, quick=24, desc="the bundled data sets themselves: metadata, sizes and a circuit sized by the metadata"),
    Sub("newsgroups", st_text, run_text, quick=60, desc="text data: split, projection and scaling"),
    Sub("kddcup", st_kdd, run_kdd, quick=60, desc="mixed categorical and numerical data: encoding, split, scaling"),
    Sub("debd", st_debd, run_debd, quick=200, desc="benchmark files go to their own part unchanged"),
    Sub("images", st_image, run_image, quick=400, desc="image data sets from files and stand-ins: partition, resizing, normalisation, labels"),
    Sub("synthetic", st_synth, run_synth, quick=300, desc="generated data: determinism, classes, centres, disjoint parts, metadata"),
    Sub("unknown", st_unknown, run_unknown, quick=100, desc="unknown names are rejected"),
    Sub("sampler", st_sampler, run_sampler, quick=3000, desc="consecutive permutations determined by the seed"),
    Sub("sampler-uniform", st_uniform, run_uniform, quick=40, desc="every order equally likely over seeds, in every epoch"),
    Sub("loaders", st_loader, run_loader, quick=250, desc="training and evaluation loaders deliver every row as promised"),
]
