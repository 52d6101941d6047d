import logging
import numpy as np
from kit import *
from robpy.covariance import FastMCD, DetMCD, CellMCD
from robpy.univariate import UnivariateMCD
from robpy.regression import FastLTSRegression


def cost(c):
    return c["n"] * (3 if c["est"] in ("fast", "cell") else 1)


def run(c, rng):
    n, p, est = c["n"], c["p"], c["est"]
    if est in ("fast", "det", "lts"):
        n = max(n, 2 * p + 3)
    if est == "cell":
        n = max(n, 30) + 20
    alpha, at, a = alpha_arg(c["at"], c["a"], n)
    rec = {"est": est, "n": n, "p": p, "at": at, "a": a}
    out = {"status": "ok", "ix": [], "h": 0, "cols": [], "classical": False, "loc": [], "cov": [], "fitted": False}
    rec["out"] = out
    if est == "uni":
        X = uni(rng, c["kind"], n)
        m = UnivariateMCD(alpha=alpha)
        out["status"], _ = attempt(lambda: m.fit(X))
        if out["status"] == "ok":
            out["h"] = I(m.h_size)
        return rec
    if c["kind"] == "corrcells":
        # one column with more cells that disagree with the others (but not marginally) than may be dropped
        X = rng.normal(size=(n, 1)) + 0.1 * rng.normal(size=(n, p))
        k = min(n // 3, int((1 - c["a"] / 1000) * n) + 4)
        X[:k, c["a"] % p] = -np.sign(X[:k, 0]) * rng.uniform(0.5, 1.5, k)
        X = X[rng.permutation(n)]
    else:
        X = multi(rng, c["kind"], n, p)
    rec["X"] = clean(X)
    if est == "lts":
        y = X @ np.arange(1, p + 1) + rng.normal(size=n)
        m = FastLTSRegression(alpha=alpha, n_initial_subsets=10, reweighting=c["part"] % 2 == 0, random_state=c["a"])
        out["status"], _ = attempt(lambda: m.fit(X, y, verbosity=logging.ERROR))
        if out["status"] == "ok":
            out["ix"] = IX(m.best_h_subset, n)
        return rec
    if est == "cell":
        m = CellMCD(alpha=alpha)
        out["status"], _ = attempt(lambda: m.fit(X))
        if out["status"] == "ok":
            W = np.asarray(m.W, dtype=float)
            assert W.shape == (n, p)
            out["cols"] = [I(v) for v in W.sum(axis=0)]
            out["fitted"] = bool(np.all((W == 0) | (W == 1)))
        return rec
    if est == "fast":
        k = min(c["part"], n // (3 * p + 4)) or 1
        if c["part"] == 0:
            k = None
        m = FastMCD(alpha=alpha, n_initial_subsets=20, n_partitions=k, random_seed=c["a"])
    else:
        m = DetMCD(alpha=alpha)
    out["status"], _ = attempt(lambda: m.fit(X))
    if out["status"] == "ok":
        if hasattr(m, "best_subset"):
            out["ix"] = IX(m.best_subset.indices, n)
        else:
            out["classical"] = True
            out["loc"], out["cov"] = Vv(m.location_, p), M(m.covariance_, p, p)
    return rec
