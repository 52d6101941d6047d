"""Covariance estimators by name, shared by drivers."""
import logging
import numpy as np, pandas as pd
from kit import *
from robpy.covariance import FastMCD, DetMCD, OGK, WrappingCovariance, KendallTau, CellMCD
from robpy.univariate import Qn, Tau


def tau_scale(x, axis=0):
    x = np.asarray(x)
    return Tau().fit(x).scale if x.ndim == 1 else np.array([Tau().fit(c).scale for c in x.T])


COV = {"fast": lambda s=1: FastMCD(n_initial_subsets=60, random_seed=s), "fastraw": lambda s=1: FastMCD(alpha=0.75, n_initial_subsets=60, random_seed=s, reweighting=False),
       "fastfew": lambda s=1: FastMCD(n_initial_subsets=3, n_initial_c_steps=1, n_best_subsets=1, tolerance=0.3, random_seed=s),
       "det": lambda s=1: DetMCD(), "detraw": lambda s=1: DetMCD(alpha=0.6, reweighting=False, correct_covariance=False),
       "ogk": lambda s=1: OGK(), "ogkrw": lambda s=1: OGK(reweighting=True, scale_estimator=tau_scale, n_iterations=3),
       "wrap": lambda s=1: WrappingCovariance(), "kendall": lambda s=1: KendallTau(), "cell": lambda s=1: CellMCD(alpha=0.75), "cell9": lambda s=1: CellMCD(alpha=0.6, quantile=0.95)}


def size(est, n, p):
    return max(n, 6 * p + 10, 40) if est.startswith("cell") else max(n, 3 * p + 4)


def frame(rng, X, lab):
    n, p = np.shape(X)
    ix = {"range": None, "perm": rng.permutation(n), "dup": rng.integers(0, 3, n), "str": [f"r{i * 7 % n}" for i in range(n)],
          "date": pd.date_range("2020-01-01", periods=n), "neg": -np.arange(n) - 5}[lab]
    cols = {"range": None, "perm": list(rng.permutation(p)), "dup": ["a"] * p, "str": [f"v{p - j}" for j in range(p)], "date": list("zyxwvutsrq"[:p]), "neg": [10 - j for j in range(p)]}[lab]
    return pd.DataFrame(np.array(X), index=ix, columns=cols)


def steady(est, *Xs):
    """the estimates do not hang on a tie that rounding decides: noise of a few units in the last place changes none of them"""
    rng = np.random.default_rng(0)
    for X in Xs:
        m = COV[est](3).fit(X)
        for _ in range(4):
            w = COV[est](3).fit(X + 1e-14 * np.abs(X) * rng.uniform(-1, 1, X.shape))
            d = np.sqrt(np.diag(m.covariance_))
            if np.abs((w.covariance_ - m.covariance_) / np.outer(d, d)).max() > 1e-6:
                return False
    return True
