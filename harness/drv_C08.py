from apikit import *
from robpy.utils.outlyingness import stahel_donoho
from robpy.utils.distance import mahalanobis_distance
CASE_TIMEOUT = 60
MK = {"lts": lambda: FastLTSRegression(n_initial_subsets=200, random_state=1), "ltsraw": lambda: FastLTSRegression(n_initial_subsets=200, random_state=1, reweighting=False),
      "s": lambda: SRegression(n_initial_subsets=200, random_state=1), "mm": lambda: MMRegression(initial_estimator=SRegression(n_initial_subsets=200, random_state=1)),
      "robpca": lambda: ROBPCA(n_components=2, random_seed=1), "loc": lambda: PCALocantore(n_components=2), "ddc": DDC, "kendall": KendallTau}


def cost(c):
    return 5 if c["what"] in ("reg", "cells") else 1


def contaminate(rng, n, p, m, k, pat):
    Z, idx = rng.normal(size=(n, p)), rng.permutation(n)[:m]
    u = rng.normal(size=p)
    u /= np.linalg.norm(u)
    if pat == "point":
        Z[idx] = k * u
    elif pat == "cluster":
        Z[idx] = k * u + 0.3 * rng.normal(size=(m, p))
    elif pat == "scatter":
        V = rng.normal(size=(m, p))
        Z[idx] = V / np.linalg.norm(V, axis=1)[:, None] * k * rng.uniform(1, 2, (m, 1))
    elif pat == "coord":
        Z[idx, rng.integers(p)] += k * rng.choice([-1, 1])
    else:
        Z[idx] *= k / np.linalg.norm(Z[idx], axis=1)[:, None]
    return Z, idx


def run(c, rng):
    w, cls, n, k, pat = c["what"], c["cls"], c["n"], float(c["k"]), c["pat"]
    m = int(c["frac"] * n / 100)
    if w == "uni":
        sd = float(c["unit"])
        centre = sd * float(rng.integers(-5, 6))
        x = rng.normal(size=n)
        x[rng.permutation(n)[:m]] = c["side"] * {"point": np.full(m, k), "cluster": k + 0.5 * rng.normal(size=m), "two": rng.choice([-1, 1], m) * k * rng.uniform(1, 3, m), "one": k * rng.uniform(1, 3, m)}[pat]
        x = centre + sd * x
        if cls.startswith("scaler"):
            o = MAKE[cls](1).fit(np.column_stack([x, x[::-1]]))
            return {"loc": S(o.locations_[0]), "scale": S(o.scales_[0]), "centre": centre, "sd": sd}
        o = MAKE[cls](1).fit(x)
        return {"loc": S(o.location), "scale": S(o.scale), "centre": centre, "sd": sd}
    p = c["p"]
    if w == "rows":
        n = max(n, 10 * p)
        m = int(c["frac"] * n / 100)
        Z, idx = contaminate(rng, n, p, m, k, pat)
        # clean covariance with condition number at most 16
        A = np.linalg.qr(rng.normal(size=(p, p)))[0] * rng.uniform(0.5, 2, p)
        mu = 5.0 * np.arange(p)
        if cls == "sd":
            return {"dist": Vv(stahel_donoho(Z @ A.T + mu, random_seed=1), n), "out": [int(i) + 1 for i in idx]}
        o = (MK.get(cls) or (lambda: MAKE[cls](1)))().fit(Z @ A.T + mu)
        return {"loc": Vv(o.location_, p), "cov": M(o.covariance_, p, p), "mu": clean(mu), "W": clean(np.linalg.inv(A)), "tcov": clean(A @ A.T), "dist": Vv(mahalanobis_distance(Z @ A.T + mu, o.location_, o.covariance_), n), "out": [int(i) + 1 for i in idx]}
    if w == "reg":
        X, b = rng.normal(size=(n, p)), rng.normal(size=p) * 2
        y, idx = X @ b + 3 + rng.normal(size=n), rng.permutation(n)[:m]
        if pat == "vert1":
            y[idx] += k * rng.uniform(1, 2, m)
        elif pat == "vert2":
            y[idx] += k * rng.uniform(1, 2, m) * rng.choice([-1, 1], m)
        elif pat == "vpoint":
            X[idx] = X[idx[0]]
            y[idx] = y[idx[0]] + k
        elif pat == "badlev":
            X[idx] += k
            y[idx] = X[idx] @ b + 100 * k
        elif pat == "badlevpoint":
            X[idx] = k
            y[idx] = X[idx] @ b - 100 * k
        elif pat == "levscatter":
            X[idx] *= k
            y[idx] = X[idx] @ b + rng.choice([-1, 1], m) * 100 * k * p * rng.uniform(1, 2, m)
        else:
            X[idx[: m // 2]] += k
            y[idx] = X[idx] @ b + 100 * k
        o = MK[cls]().fit(X, y)
        pr = np.asarray(o.predict(np.vstack([np.zeros(p), np.eye(p)])), dtype=float).ravel()
        res = np.abs(y - np.asarray(o.predict(X), dtype=float).ravel())
        return {"coef": [float(pr[0])] + [float(v - pr[0]) for v in pr[1:]], "beta": [3.0] + clean(b), "scale": S(o.scale), "absres": clean(res), "out": [int(i) + 1 for i in idx]}
    if w == "pca":
        Z, idx = contaminate(rng, n, p, m, k, pat)
        Q = np.linalg.qr(rng.normal(size=(p, p)))[0]
        # the leading direction of a spherical PCA must dominate the outliers' share of the directions
        sd = np.array([5.0 if cls == "robpca" else 12.0, 3.0] + [0.5] * (p - 2))
        mu = 5.0 * np.arange(p)
        o = MK[cls]().fit(Z @ (Q * sd).T + mu)
        P = np.asarray(o.components_, dtype=float)
        if P.shape != (p, 2):
            raise Malformed(f"components {P.shape}")
        cosmin = float(np.linalg.svd(Q[:, :2].T @ P)[1].min()) if cls == "robpca" else float(abs(Q[:, 0] @ P[:, 0]))
        lam = np.asarray(o.explained_variance_, dtype=float) / sd[:2] ** 2
        Y = Z @ (Q * sd).T + mu
        T = np.asarray(o.transform(Y), dtype=float)
        od = np.linalg.norm(Y - np.asarray(o.location_) - T @ P.T, axis=1)
        return {"od": clean(od), "scd": clean(np.sqrt(((T / np.sqrt(np.asarray(o.explained_variance_, dtype=float))) ** 2).sum(axis=1))), "out": [int(i) + 1 for i in idx], "cstd": clean((Q.T @ (np.asarray(o.location_) - mu)) / sd), "cosmin": cosmin, "lam": clean(lam if cls == "robpca" else lam[:1])}
    rho = c["rho"] / 10
    Sg = rho * np.ones((p, p)) + (1 - rho) * np.eye(p)
    Z = rng.normal(size=(n, p)) @ np.linalg.cholesky(Sg).T
    out = np.zeros((n, p), dtype=bool)
    for j in range(p):
        ix = rng.permutation(n)[:m]
        out[ix, j] = True
        Z[ix, j] = {"same": np.full(m, k), "one": k * rng.uniform(1, 2, m), "two": k * rng.uniform(1, 2, m) * rng.choice([-1, 1], m)}[pat]
    sd = 10.0 ** rng.integers(-2, 3, p)
    mu = 3 * sd
    X = Z * sd + mu
    if cls == "ddc":
        o = DDC().fit(pd.DataFrame(X))
        flags = np.asarray(o.cellwise_outliers_, dtype=bool)
        return {"loc": Vv(o.location_, p), "var": [float(v) ** 2 for v in o.scale_], "cor": M(o.robust_correlation_, p, p), "mu": clean(mu), "sd": clean(sd), "rho": rho, "hit": [bool(v) for v in flags[out]], "fp": float(flags[~out].mean())}
    o = MAKE[cls](1).fit(X)
    C = np.asarray(o.covariance_, dtype=float)
    v = np.diag(C)
    flags = ~np.asarray(o.W, dtype=bool) if cls == "cell" else np.zeros((n, p), dtype=bool)
    return {"loc": Vv(o.location_, p), "var": clean(v), "cor": clean(C / np.sqrt(np.outer(v, v))), "mu": clean(mu), "sd": clean(sd), "rho": rho, "hit": [bool(t) for t in flags[out]], "fp": float(flags[~out].mean())}
