import logging
import numpy as np
from kit import *
from sklearn.decomposition import PCA
from robpy.pca import ROBPCA, PCALocantore
from robpy.pca.base import get_od_cutoff
from robpy.covariance import FastMCD
from robpy.utils.outlyingness import stahel_donoho

CASE_TIMEOUT = 60
cost = lambda c: c["n"] * (5 if c["mcd"] == "T" else 1)


def data(rng, kind, n, p):
    if kind == "flat":  # rank p - 1, shifted
        return rng.normal(size=(n, p - 1)) @ (rng.normal(size=(p - 1, p)) * 2) + 5
    return multi(rng, kind, n, p).astype(float)


def reference(X, outl, h, nc, kmin, seed):
    """the basis before the last step (decided against the specification) and the public FastMCD of its scores"""
    hix = np.argsort(outl)[:h]
    loc = X[hix].mean(axis=0)
    w, V = np.linalg.eigh(np.cov(X[hix].T)); w, V = w[::-1], V[:, ::-1]
    k = nc or int(np.argmax(np.cumsum(w) / np.cumsum(w)[-1] >= kmin) + 1)
    Z = X - loc
    od = np.linalg.norm(Z - Z @ V[:, :k] @ V[:, :k].T, axis=1)
    vix = np.flatnonzero(od <= get_od_cutoff(od)) if k < np.linalg.matrix_rank(X - X.mean(axis=0)) else hix
    loc1 = X[vix].mean(axis=0)
    cv = np.cov(X[vix].T)
    w, V = np.linalg.eigh(cv); V = V[:, ::-1]
    k = min(k, np.linalg.matrix_rank(cv, hermitian=True))
    B = V[:, :k]
    m = FastMCD(random_seed=seed).fit((X - loc1) @ B)
    return {"loc1": clean(loc1), "P1": clean(B @ B.T), "loc": clean(loc1 + B @ m.location_), "cov": clean(B @ m.covariance_ @ B.T)}


def run(c, rng):
    n, p = c["n"], c["p"]
    X = data(rng, c["kind"], n, p)
    nc = min(c["nc"], p)
    kmin, seed, a = c["kmin"] / 1000, c["seed"], c["alpha"]
    if c["est"] == "robpca":
        mk = lambda: ROBPCA(n_components=nc or None, k_min_var_explained=kmin, alpha=a / 1000, final_MCD_step=c["mcd"] == "T", random_seed=seed, verbosity=logging.CRITICAL)
    else:
        mk = lambda: PCALocantore(n_components=nc or None, k_min_var_explained=kmin)
    m = mk().fit(X.copy())
    get = lambda q: [np.asarray(v, float) for v in (q.location_, q.components_, q.explained_variance_)]
    r2 = mk()
    r2.fit(multi(rng, "corr", n + 3, p + 1).astype(float))
    r2.fit(X.copy())
    refit = all(u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=1e-9 * max(1, np.abs(u).max())) for u, v in zip(get(m), get(r2)))
    rec = {"est": c["est"], "X": clean(X), "nc": nc, "kmin": kmin, "a": a, "mcd": c["mcd"] == "T", "mcdok": False, "outl": [], "ref": {}}
    sameperm = True
    if c["est"] == "robpca":
        Zs = PCA().fit_transform(X)
        outl = stahel_donoho(Zs, random_seed=seed)
        rec["outl"] = Vv(outl, n)
        if rec["mcd"]:
            h = min(n, max(int(a / 1000 * n), (n + (nc or 10) + 1) // 2))
            try:
                rec["ref"] = reference(X, outl, h, nc, kmin, seed); rec["mcdok"] = True
            except Exception:  # noqa - k = 1, or too few observations
                pass
    else:
        q = mk().fit(X[rng.permutation(n)])
        C1, C2 = np.asarray(m.components_), np.asarray(q.components_)
        sameperm = C1.shape == C2.shape and np.allclose(np.abs(np.sum(C1 * C2, axis=0)), 1, atol=1e-4) and np.allclose(m.location_, q.location_, rtol=0, atol=1e-4 * np.std(X, axis=0).max())
    C = np.asarray(m.components_, float)
    Y = np.vstack([X[:4], X.mean(axis=0) + 3 * rng.normal(size=(2, p)) * X.std(axis=0)])
    k = C.shape[1] if C.ndim == 2 else 0
    rec["Y"] = clean(Y)
    ratio = getattr(m, "explained_variance_ratio_", None)
    if ratio is None:
        ratio = m.explained_variance_ratio
    rec["out"] = {"C": M(C), "loc": Vv(m.location_), "ev": Vv(m.explained_variance_), "k": I(m.n_components_), "ratio": Vv(ratio),
                  "T": M(m.transform(Y.copy()), len(Y), k), "P": M(m.project(Y.copy()), len(Y), p), "refit": bool(refit), "sameperm": bool(sameperm)}
    return rec
