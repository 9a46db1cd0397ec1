"""Process-wide set-up shared by every check: import paths, hypothesis, stand-ins for absent third-party packages."""
import importlib.abc
import importlib.machinery
import logging
import os
import sys
import types
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HYP_NAMES = {
    "hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals", "_hypothesis_ftz_detector",
    "_hypothesis_pytestplugin",
}

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "CUDA_VISIBLE_DEVICES": "",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "WANDB_MODE": "disabled",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/nonexistent-hypothesis",
}


class _HypFinder(importlib.abc.MetaPathFinder):
    """Resolve only hypothesis and its own dependencies from the tools' virtualenv (repo packages win for the rest)."""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in HYP_NAMES and path is None:
            return importlib.machinery.PathFinder.find_spec(name, [HYP_SITE])
        return None


def _fake_kmeans_module():
    """A stand-in for `fast_pytorch_kmeans` (not installed, not vendored): the API the repository uses, Lloyd's
    algorithm with deterministic farthest-point seeding."""
    import torch

    mod = types.ModuleType("fast_pytorch_kmeans")

    class KMeans:
        instances = None  # a list collects every fitted instance; seeding then starts at a random row

        def __init__(self, n_clusters, max_iter=100, tol=0.0001, verbose=0, mode="euclidean", init_method="random",
                     minibatch=None, n_init=None, algorithm=None, device=None, **kw):
            self.n_clusters, self.max_iter, self.tol, self.mode = n_clusters, max_iter, tol, mode
            self.init_method = init_method
            self.centroids = None

        def _d(self, a, b):
            return ((a[:, None, :] - b[None, :, :]) ** 2).sum(-1)

        def max_sim(self, a, b):
            s = -self._d(a.float(), b.float())
            v, i = s.max(dim=-1)
            return v, i

        def fit_predict(self, X, centroids=None):
            X = X.float()
            assert X.dim() == 2
            if centroids is None:
                idx = [0 if KMeans.instances is None else int(torch.randint(len(X), (1,)))]
                d = self._d(X, X[idx])[:, 0]
                while len(idx) < self.n_clusters:
                    j = int(d.argmax())
                    idx.append(j)
                    d = torch.minimum(d, self._d(X, X[j : j + 1])[:, 0])
                c = X[idx].clone()
            else:
                c = centroids.clone()
            for _ in range(self.max_iter):
                a = self._d(X, c).argmin(1)
                n = c.clone()
                for k in range(self.n_clusters):
                    if (a == k).any():
                        n[k] = X[a == k].mean(0)
                if torch.allclose(n, c):
                    break
                c = n
            self.centroids = c
            if KMeans.instances is not None:
                KMeans.instances.append(self)
            return self._d(X, c).argmin(1)

        def fit(self, X, centroids=None):
            self.fit_predict(X, centroids)
            return self

        def predict(self, X):
            return self.max_sim(X, self.centroids)[1]

    KMeans.__module__, KMeans.__qualname__ = mod.__name__, "KMeans"  # picklable
    mod.KMeans = KMeans
    return mod


_done = False


def setup():
    global _done
    if _done:
        return
    _done = True
    for k, v in ENV.items():
        os.environ[k] = v
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.meta_path.append(_HypFinder())
    sys.path.insert(0, REPO)
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    try:
        import fast_pytorch_kmeans  # noqa: F401
    except ImportError:
        sys.modules["fast_pytorch_kmeans"] = _fake_kmeans_module()
    os.chdir(REPO)
    import simple_einet

    got = os.path.dirname(os.path.abspath(simple_einet.__file__))
    if got != os.path.join(REPO, "simple_einet"):
        raise SystemExit(f"simple_einet imported from {got}, expected {REPO}")
