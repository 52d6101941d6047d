import numpy as np, pandas as pd
from kit import *
from robpy.utils.distance import mahalanobis_distance
from robpy.utils.general import inverse_submatrix
from robpy.utils.median import l1median, weighted_median
from robpy.utils.outlyingness import stahel_donoho

CASE_TIMEOUT = 20


def run(c, rng):
    f = c["f"]
    rec = {"f": f}
    if f == "wmed":
        x = uni(rng, c["kind"], c["n"]).astype(float)
        n = len(x)
        w = {"ones": np.ones(n), "ints": rng.integers(1, 6, n).astype(float), "unif": rng.uniform(0.01, 1, n), "onebig": np.where(np.arange(n) == rng.integers(n), 10.0 * n, 1.0),
             "halves": np.r_[n - 1.0, np.ones(n - 1)] if n > 1 else np.ones(1), "zeros": (rng.integers(0, 2, n) + (np.arange(n) == 0)).astype(float)}[c["w"]]
        return {**rec, "x": clean(x), "w": clean(w), "out": {"v": S(weighted_median(x.copy(), w.copy()))}}
    if f == "l1":
        n, p = c["n"], c["p"]
        X = multi(rng, c["kind"], n, p).astype(float if c["kind"] != "intdtype" or c["hit"] != "no" else int)
        if c["hit"] == "mean":
            X[0] = X[1:].mean(axis=0)
        elif c["hit"] == "dup":
            X[: n // 3] = X[-1]
        elif c["hit"] == "majority":
            X[: n // 2 + 1] = X[-1]
        elif c["hit"] == "cross":  # symmetric around an observation
            m = n // 2
            X[m:2 * m] = 2 * X[-1] - X[:m]
        return {**rec, "X": clean(X), "out": {"m": Vv(l1median(X.copy()), p)}}
    if f == "maha":
        n, p = c["n"], c["p"]
        X = multi(rng, c["kind"], n, p)
        Y = multi(rng, c["kind"], 3 * p + 8, p) + rng.normal(size=(3 * p + 8, p)) * 0.1
        cov = np.atleast_2d(np.cov(Y.T)); loc = Y.mean(axis=0)
        arg = {"array": np.array(X), "frame": frame_of(rng, X), "fortran": np.asfortranarray(X)}[c["form"]]
        la = {"vec": loc, "row": loc.reshape(1, -1), "col": loc.reshape(-1, 1)}[c["loc"]]
        d = mahalanobis_distance(arg, la, cov)
        return {**rec, "X": clean(X), "loc": clean(loc), "cov": clean(cov), "out": {"d": Vv(d, n), "array": isinstance(d, np.ndarray)}}
    if f == "inv":
        p = c["p"]; k = min(c["k"], p)
        A = np.cov((rng.normal(size=(3 * p + 5, p)) @ (rng.normal(size=(p, p)) + 2 * np.eye(p))).T).reshape(p, p)
        if c["cond"] == "scaled":
            s = 10.0 ** rng.integers(-2, 3, p); A = A * np.outer(s, s)
        ix = rng.permutation(p)[:k]
        if c["ord"] == "sorted":
            ix = np.sort(ix)
        # scale-free comparison: log both in unit-diagonal form
        s = np.sqrt(np.diag(A))
        out = np.asarray(inverse_submatrix(A.copy(), np.linalg.inv(A), ix), float)
        if out.shape != (k, k):
            raise Malformed(f"shape {out.shape}")
        return {**rec, "A": clean(A / np.outer(s, s)), "ix": [int(i) + 1 for i in ix], "out": {"inv": clean(out * np.outer(s[ix], s[ix]))}}
    n, p, pts, seed = c["n"], c["p"], c["pts"], c["seed"]
    X = multi(rng, c["kind"], n, p).astype(float)
    if c["dup"] == "T":
        X[1] = X[0]
    a = float(rng.choice([-1, 1]) * 10.0 ** rng.integers(-2, 3)); b = rng.normal(size=p) * np.abs(X).max()
    many = 900 if pts == 2 else 3000
    sd = lambda Z, k: Vv(stahel_donoho(np.array(Z), n_points=pts, n_dir=k, random_seed=seed), n)
    return {**rec, "X": clean(X), "pts": pts, "p": p, "dup": c["dup"] == "T", "size": float(np.median(np.abs(X - np.median(X, axis=0)).max(axis=1))),
            "out": {"out": sd(X, many), "again": sd(X, many), "moved": sd(a * X + b, many), "one": sd(X, 1), "few": sd(X, 7)}}


def frame_of(rng, X):
    n, p = np.shape(X)
    return pd.DataFrame(np.array(X), index=rng.permutation(n), columns=[f"c{p - j}" for j in range(p)])
