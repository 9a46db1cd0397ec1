"""Stand-in for the absent fast_pytorch_kmeans package: Lloyd's algorithm with farthest-point seeding."""
import torch


class KMeans:
    def __init__(self, n_clusters, max_iter=100, tol=0.0001, verbose=0, mode="euclidean", init_method="random", **kw):
        self.n_clusters, self.max_iter, self.centroids = n_clusters, max_iter, None

    def _d(self, a, b):
        return ((a[:, None, :].float() - b[None, :, :].float()) ** 2).sum(-1)

    def max_sim(self, a, b):
        return (-self._d(a, b)).max(dim=-1)

    def fit_predict(self, X, centroids=None):
        X = X.float()
        idx = [0]
        d = self._d(X, X[idx])[:, 0]
        while len(idx) < self.n_clusters:
            j = int(d.argmax())
            idx.append(j)
            d = torch.minimum(d, self._d(X, X[j : j + 1])[:, 0])
        c = X[idx].clone() if centroids is None else centroids.clone()
        for _ in range(self.max_iter):
            a = self._d(X, c).argmin(1)
            n = c.clone()
            for k in range(self.n_clusters):
                if (a == k).any():
                    n[k] = X[a == k].mean(0)
            if torch.allclose(n, c):
                break
            c = n
        self.centroids = c
        return self._d(X, c).argmin(1)

    def fit(self, X, centroids=None):
        self.fit_predict(X, centroids)
        return self

    def predict(self, X):
        return self.max_sim(X, self.centroids)[1]
