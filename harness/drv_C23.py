from apikit import *
CASE_TIMEOUT = 60
OPS = {"cov": ["maha"], "reg": ["predict"], "pca": ["transform", "project"], "scaler": ["transform", "inverse_transform"], "power": ["transform", "inverse_transform"], "ddc": ["predict", "residuals", "predictrow", "impute", "impute2"]}


def rows_of(v, m):
    """the result as one row of numbers per observation"""
    if isinstance(v, (pd.DataFrame, pd.Series)):
        v = v.to_numpy()
    a = np.asarray(v, dtype=float)
    if a.shape[0] != m:
        raise Malformed(f"{a.shape} for {m} rows")
    return [[float(x) for x in r] for r in a.reshape(m, -1)]


def apply(cls, o, op, X):
    if op == "maha":
        return o.mahalanobis(X)
    if FAM[cls] == "ddc" and op != "impute":
        if op == "predict":
            return o.predict(X)[0]
        return o.predict(X)[1] if op == "residuals" else o.impute(X, impute_outliers=False) if op == "impute2" else o.predict(X, rowwise=True)
    return getattr(o, op)(X)


def put(cls, x, cont, rng):
    fam = FAM[cls]
    if cont == "int":
        x = np.round(3 * x)
        x = x.astype(int) if np.isfinite(x).all() else x
    if fam == "ddc" or (fam != "power" and cont in ("frame", "oddframe", "fittedonframe")):
        ix = list(rng.permutation(len(x)) * 3 - 7) if cont == "oddframe" else None
        return pd.DataFrame(np.array(x), columns=[f"v{j}" for j in range(x.shape[1])], index=ix)
    return np.asfortranarray(x) if cont == "f" else x


def run(c, rng):
    cls, p, m = c["cls"], c["p"], c["m"]
    fam = FAM[cls]
    if p == 1 and (fam in ("pca", "ddc") or cls in ("det", "ogk", "wrap", "kendall")):
        p = 2
    args, _ = dataset(cls, rng, "normal", c["n"], p)
    if fam == "power" and c["rep"] == 2:
        # skew enough for a transformation whose range is bounded
        z = np.exp(rng.uniform(0.8, 1.6) * (np.clip(rng.normal(size=c["n"]), -1, 3) + rng.uniform(0, 0.2, c["n"]))) + rng.uniform(0, 2)
        args = ((z if getattr(MAKE[cls](2), "method", "") == "boxcox" or rng.uniform() < 0.6 else 9 - z),)
    train = np.asarray(args[0], dtype=float)
    fitargs = args
    if c["cont"] == "fittedonframe" and fam not in ("power", "ddc"):
        fitargs = (pd.DataFrame(train, columns=[f"v{j}" for j in range(train.shape[1])]), *[pd.Series(a) for a in args[1:]])
    o = MAKE[cls](2).fit(*fitargs)
    if fam == "power":
        x = {"normal": rng.normal(size=m), "train": train[:m], "far": rng.normal(size=m) * 50, "cells": rng.standard_t(1, size=m), "ties": np.round(rng.normal(size=m))}[c["rows"]]
        x = np.abs(x) + 0.3 if getattr(o, "method_", "") == "boxcox" else x
    else:
        x = np.array(multi(rng, {"normal": "normal", "far": "normal", "cells": "cells", "ties": "ties", "train": "normal"}[c["rows"]], m, p), dtype=float)
        if c["rows"] == "train":
            x = train[:m].copy()
        if c["rows"] == "far":
            x = x * 1e3
        if fam == "ddc":
            x[rng.uniform(size=x.shape) < 0.15] = np.nan
            x[0] = np.nan if c["rows"] == "cells" else x[0]
            x[1, 0] = np.inf if c["rows"] == "far" else x[1, 0]
    x = np.round(3 * x) if c["cont"] == "int" else x
    ops = []
    for op in OPS[fam]:
        src = x
        if op == "inverse_transform":
            src = np.asarray(o.transform(x))
            if fam == "power" and c["rep"] == 2:
                # values the transformation does not reach, among values it does
                far = rng.permutation(m)[: m // 2]
                src[far] = rng.choice([-1, 1], len(far)) * 10.0 ** rng.uniform(0.3, 2, len(far))
        base = "frame" if fam == "ddc" else "array"
        f = lambda ix, cont=base: rows_of(apply(cls, o, op, put(cls, src[[i - 1 for i in ix]], cont, rng)), len(ix))
        full = list(range(1, m + 1))
        allr = f(full)
        b = []
        for i in full:
            b.append({"kind": "single", "ix": [i], "res": f([i])})
        pm = [int(v) + 1 for v in rng.permutation(m)]
        b.append({"kind": "perm", "ix": pm, "res": f(pm)})
        b.append({"kind": "perm", "ix": full[::-1], "res": f(full[::-1])})
        k = int(rng.integers(1, m))
        for part in (full[:k], full[k:]):
            b.append({"kind": "split", "ix": part, "res": f(part)})
        rp = [int(v) for v in rng.integers(1, m + 1, 2 * m)]
        b.append({"kind": "repeat", "ix": rp, "res": f(rp)})
        b.append({"kind": "with", "ix": [pm[0]] * 3 + [pm[1]], "res": f([pm[0]] * 3 + [pm[1]])})
        if op != "inverse_transform" or c["cont"] != "int":
            cont = {"array": base, "fittedonframe": "frame"}.get(c["cont"], c["cont"])
            cont = "f" if cont == "int" and op == "inverse_transform" else cont
            # the int container holds the same values in another type
            g = lambda ix: rows_of(apply(cls, o, op, put_same(cls, src[[i - 1 for i in ix]], cont, rng)), len(ix))
            b.append({"kind": "cont", "ix": full, "res": g(full)})
            b.append({"kind": "cont", "ix": pm, "res": g(pm)})
            b.append({"kind": "cont", "ix": [pm[0]], "res": g([pm[0]])})
        fin = np.abs(np.array(allr, dtype=float))
        fin = fin[np.isfinite(fin)]
        ops.append({"op": op, "all": allr, "b": b, "tol": 1e-9 * (1 + (float(fin.max()) if fin.size else 0))})
    return {"m": m, "ops": ops}


def put_same(cls, x, cont, rng):
    if cont == "int":
        return put(cls, x.astype(int), "array", rng) if np.isfinite(x).all() else put(cls, x, "array", rng)
    return put(cls, x, cont, rng)
