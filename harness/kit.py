"""Shared by the drivers: data from case descriptors, and normalisation of the outputs that are logged."""
import hashlib, json
import numpy as np


class Malformed(Exception):
    """the implementation returned something of the wrong type or shape"""


def rng_for(case, seed):
    """data depend on the descriptor and VERIF_SEED, not on the position of the case"""
    h = hashlib.sha256((json.dumps(case, sort_keys=True) + f"|{seed}").encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "big"))


def S(x):
    """a scalar output"""
    try:
        a = np.asarray(x, dtype=float)
    except Exception as e:  # noqa
        raise Malformed(f"not a number: {type(x).__name__} {e}")
    if a.size != 1:
        raise Malformed(f"expected a scalar, got shape {a.shape}")
    return float(a.reshape(()))


def Vv(x, n=None):
    """a vector output of length n"""
    try:
        a = np.asarray(x, dtype=float)
    except Exception as e:  # noqa
        raise Malformed(f"not a numeric vector: {e}")
    if a.ndim == 2 and 1 in a.shape:
        a = a.reshape(-1)
    if a.ndim != 1 or (n is not None and a.shape[0] != n):
        raise Malformed(f"expected a vector of length {n}, got shape {a.shape}")
    return [float(v) for v in a]


def M(x, n=None, p=None):
    """a matrix output of shape (n, p)"""
    try:
        a = np.asarray(x, dtype=float)
    except Exception as e:  # noqa
        raise Malformed(f"not a numeric matrix: {e}")
    if a.ndim != 2 or (n is not None and a.shape[0] != n) or (p is not None and a.shape[1] != p):
        raise Malformed(f"expected a matrix of shape ({n},{p}), got {a.shape}")
    return [[float(v) for v in r] for r in a]


def I(x):
    a = np.asarray(x)
    if a.size != 1 or float(a.reshape(())) != int(a.reshape(())):
        raise Malformed(f"expected an integer, got {x!r}")
    return int(a.reshape(()))


def IX(x, n):
    """an index set: 0-based in the code, logged 1-based; a boolean mask is accepted"""
    a = np.asarray(x)
    if a.dtype == bool:
        a = np.flatnonzero(a)
    a = a.reshape(-1)
    out = [int(v) + 1 for v in a]
    if any(v < 1 or v > n for v in out):
        raise Malformed("index out of range")
    return out


def B(x):
    return bool(x)


def attempt(f):
    """('ok', value) or the exception's class name: for calls where raising may be right"""
    try:
        return "ok", f()
    except Exception as e:  # noqa
        return type(e).__name__, None


def uni(rng, kind, n):
    """univariate data of a named kind"""
    if kind == "normal":
        return rng.normal(size=n)
    if kind == "skew":
        return rng.exponential(size=n) ** 1.5
    if kind == "heavy":
        return rng.standard_t(1.5, size=n)
    if kind == "ints":
        return rng.integers(-4, 5, size=n).astype(float)
    if kind == "intdtype":
        return rng.integers(-40, 50, size=n)
    if kind == "ties":
        return np.round(rng.normal(size=n) * 2) / 2
    if kind == "out20":
        x = rng.normal(size=n)
        m = n // 5
        x[rng.permutation(n)[:m]] += rng.choice([-1, 1], m) * rng.uniform(10, 100, m)
        return x
    if kind == "cluster":
        x = rng.normal(size=n)
        m = int(0.35 * n)
        x[rng.permutation(n)[:m]] = 1e4 + rng.normal(size=m)
        return x
    if kind == "shifted":
        return 1e6 + rng.normal(size=n)
    if kind == "tiny":
        return 1e-7 * rng.normal(size=n)
    if kind == "huge":
        return 1e9 * rng.normal(size=n)
    if kind == "bimodal":
        return np.where(rng.uniform(size=n) < 0.5, -3, 3) + 0.1 * rng.normal(size=n)
    if kind == "sorted":
        return np.sort(rng.normal(size=n))
    if kind == "majority":
        x = rng.normal(size=n)
        x[rng.permutation(n)[: n // 2 + 2]] = 1.25
        return x
    if kind == "neartie":  # sums of products of small integers and irrationals: differences that tie up to rounding
        return (rng.integers(-3, 4, n) * np.pi - 0.1) / 0.7 + rng.integers(0, 3, n) * (1 / 3) * 2.2191
    if kind == "uniform":
        return rng.uniform(-1, 1, n)
    if kind == "positive":
        return rng.lognormal(size=n)
    raise KeyError(kind)


def comonotone(X):
    """two columns in the same or the opposite order: a singular rank correlation"""
    o = [tuple(np.argsort(c)) for c in np.asarray(X).T]
    return len(set(o) | {t[::-1] for t in o}) < 2 * len(o)


def multi(rng, kind, n, p):
    """multivariate data of a named kind"""
    for _ in range(40):
        X = _multi(rng, kind, n, p)
        if n < 6 or not comonotone(X):
            break
    return X


def _multi(rng, kind, n, p):
    A = rng.normal(size=(p, p)) + 2 * np.eye(p)
    while np.linalg.cond(A) > 200:
        A = rng.normal(size=(p, p)) + 2 * np.eye(p)
    X = rng.normal(size=(n, p)) @ A.T
    if kind == "normal":
        return X
    if kind == "indep":
        return rng.normal(size=(n, p))
    if kind == "corr":
        f = rng.normal(size=(n, 1))
        return 0.9 * f + 0.3 * rng.normal(size=(n, p))
    if kind == "heavy":
        return X / np.sqrt(rng.chisquare(3, size=(n, 1)) / 3)
    if kind == "skew":
        return rng.exponential(size=(n, p)) @ A.T
    if kind == "shift":
        return X + 1e3
    if kind == "scales":
        return X * (10.0 ** rng.integers(-3, 4, size=p))
    if kind == "tinyscale":
        return X * 1e-4
    if kind == "rows15":
        m = int(0.15 * n)
        X[rng.permutation(n)[:m]] += 20 * np.ones(p) * rng.choice([-1, 1], p)
        return X
    if kind == "cluster30":
        m = int(0.3 * n)
        X[rng.permutation(n)[:m]] = 60 + 0.5 * rng.normal(size=(m, p))
        return X
    if kind == "cells":
        mask = rng.uniform(size=(n, p)) < 0.08
        X[mask] += rng.choice([-1, 1], mask.sum()) * rng.uniform(10, 60, mask.sum())
        return X
    if kind == "ties":
        return np.round(X)
    if kind == "intdtype":
        return np.round(3 * X).astype(int)
    raise KeyError(kind)


def clean(x):
    """JSON-able copy of an input array (floats)"""
    a = np.asarray(x, dtype=float)
    return a.tolist()


def alpha_arg(at, a, n):
    """(at, a) of a case -> the alpha argument, and the (at, a) the specification reads.
    floats are in thousandths; integers pick a value of n/2..n; bad* are inadmissible."""
    if at == "none":
        return None, "none", 0
    if at == "float":
        return a / 1000, "float", a
    if at == "int":
        lo = (n + 1) // 2
        v = lo + (a * 7919) % (n - lo + 1)
        return v, "int", v
    if at == "badint":
        v = [0, -1, n + 1, 2, (n + 1) // 2 - 1, 10 * n][a % 6]
        return (v if v != 1 else 0), "badint", int(v)
    v = [0.0, 0.49, 1.01, -0.6, float("nan"), 0.3, 50.0, 1.5][a % 8]
    return v, "badfloat", 0
