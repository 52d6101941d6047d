"""Shared by the regression drivers."""
import logging
import numpy as np
from kit import *
from robpy.regression import FastLTSRegression, SRegression, MMRegression
from robpy.utils.rho import TukeyBisquare, Huber


def xdata(rng, kind, n, p):
    X = rng.normal(size=(n, p))
    if kind == "corr":
        X = 0.8 * rng.normal(size=(n, 1)) + 0.5 * X
    elif kind == "skew":
        X = rng.exponential(size=(n, p))
    elif kind == "scales":
        X = X * 10.0 ** rng.integers(-2, 3, size=p) + rng.integers(-3, 4, size=p)
    elif kind == "ints":
        X = rng.integers(-6, 7, size=(n, p)).astype(float) + 0.1 * rng.normal(size=(n, p))
    elif kind == "dummy":
        X[:, 0] = np.arange(n) % 2
    return X


def beta(rng, p):
    return rng.uniform(1, 4, p) * rng.choice([-1, 1], p), float(rng.uniform(-5, 5))


def contaminate(rng, kind, X, y, frac):
    n = len(y)
    m = int(frac * n)
    ix = rng.permutation(n)[:m]
    X, y = X.copy(), y.copy()
    if kind == "vertical":
        y[ix] += 50 + 5 * rng.normal(size=m)
    elif kind == "scattered":
        y[ix] += rng.choice([-1, 1], m) * 10.0 ** rng.uniform(1, 5, m)
    elif kind == "leverage":
        X[ix] = 20 + rng.normal(size=(m, X.shape[1]))
        y[ix] = -100 + rng.normal(size=m)
    elif kind == "mixed":
        h = m // 2
        y[ix[:h]] += 1e6
        y[ix[h:]] -= 30 + rng.normal(size=m - h)
    return X, y, ix


def affine(m, p):
    """intercept and coefficients read off predict()"""
    Z = np.vstack([np.zeros(p), np.eye(p)])
    f = np.array(Vv(m.predict(Z), p + 1))
    return float(f[0]), [float(v) for v in f[1:] - f[0]]


def coef(m, p, X):
    """as affine, but from probes on the scale of X (less cancellation)"""
    c, s = X.mean(0), X.std(0) * 3 + 1e-12
    Z = np.vstack([c, c + np.diag(s)])
    f = np.array(Vv(m.predict(Z), p + 1))
    b = (f[1:] - f[0]) / s
    return float(f[0] - c @ b), [float(v) for v in b]


def fit(m, X, y, **kw):
    return m.fit(X, y, verbosity=logging.ERROR, **kw) if isinstance(m, FastLTSRegression) else m.fit(X, y)
