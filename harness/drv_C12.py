from covkit import *
from robpy.outliers import DDC


def holes(rng, X, miss, inf):
    X = np.array(X, dtype=float)
    X[rng.uniform(size=X.shape) < miss / 100] = np.nan
    m = rng.uniform(size=X.shape) < inf / 100
    X[m] = rng.choice([-np.inf, np.inf], m.sum())
    return X


def Bm(a, n, p):
    a = np.asarray(a)
    if a.shape != (n, p):
        raise Malformed(f"flags of shape {a.shape}")
    return [[bool(v) for v in r] for r in a]


def run(c, rng):
    n, p = c["n"], c["p"]
    X = multi(rng, c["kind"], n, p).astype(float)
    X = holes(rng, X, c["miss"], c["inf"])
    m_ = n if c["rep"] == 2 else 7  # new data of the training data's size as well
    Xn = holes(rng, X[:m_] * rng.choice([1, 1, 1.3, -2], size=(m_, p)), 15, 8)
    Xn[0] = np.nan if c["rep"] == 1 else Xn[0]
    df, dn = frame(rng, X, c["lab"]), frame(rng, Xn, c["lab"])
    dn.columns = df.columns
    nan = lambda A: np.where(np.isfinite(A), A, np.nan)
    rec = {"p": p, "X": clean(nan(X)), "Xn": clean(nan(Xn)), "q": c["q"] / 1000, "minc": c["minc"] / 1000, "usable": True, "okres": True}
    f = pd.DataFrame(nan(X))
    mads = (f - f.median()).abs().median()
    if (f.nunique() <= 4).any() or (mads < 1e-9).any():  # outside the documented conditions, or no robust scale
        return {**rec, "usable": False}
    m = DDC(chi2_quantile=rec["q"], min_correlation=rec["minc"])
    if c["hist"] == "refit":
        m.fit(pd.DataFrame(multi(rng, "cells", 25, p + 1)))
    m.fit(df)
    pc, pr = m.predict(df)
    prow = m.predict(df, rowwise=True)
    nc, nr = m.predict(dn)
    nrow = m.predict(dn, rowwise=True)
    perm = rng.permutation(m_)
    bc, br = m.predict(dn.iloc[perm[:4]])
    brow = m.predict(dn.iloc[perm[:4]], rowwise=True)
    bi = m.impute(dn.iloc[perm[:4]])
    imp, impm = m.impute(dn), m.impute(dn, impute_outliers=False)
    same = lambda a, b: np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-12, atol=1e-12, equal_nan=True)
    batch = same(bc, np.asarray(nc)[perm[:4]]) and same(br, np.asarray(nr)[perm[:4]]) and same(brow, np.asarray(nrow)[perm[:4]]) and same(bi.values, imp.values[perm[:4]])
    rs = np.asarray(m.residual_scales, float)
    rec["okres"] = bool((rs > 1e-9).all())
    rec["out"] = {"loc": Vv(m.location_, p), "scale": Vv(m.scale_, p), "cor": M(m.robust_correlation_, p, p), "slopes": M(m.slopes_, p, p), "dsh": Vv(m.deshrinkage_, p),
                  "pred": M(m.predictions_, n, p), "rpred": M(m.rescaled_predictions_, n, p), "rscale": Vv(rs, p), "res": M(m.standardized_residuals_, n, p),
                  "cells": Bm(m.cellwise_outliers_, n, p), "rows": [bool(v) for v in m.row_outliers_], "pcells": Bm(pc, n, p), "pres": M(pr, n, p), "prows": [bool(v) for v in prow],
                  "ncells": Bm(nc, m_, p), "nres": M(nr, m_, p), "nrows": [bool(v) for v in nrow], "batchsame": bool(batch), "imp": M(imp.to_numpy(), m_, p), "impm": M(impm.to_numpy(), m_, p),
                  "labels": bool(imp.index.equals(dn.index) and imp.columns.equals(dn.columns) and impm.index.equals(dn.index))}
    return rec
