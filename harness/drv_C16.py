import numpy as np, pandas as pd
from kit import *
from robpy.covariance import OGK, WrappingCovariance, KendallTau
from robpy.covariance.initial_ddcw import InitialDDCW
from robpy.outliers import DDC
from robpy.univariate import Qn, OneStepWrapping
from scipy.stats import median_abs_deviation


def qn(x, axis=0):
    x = np.asarray(x)
    return Qn().fit(x).scale if x.ndim == 1 else np.array([Qn().fit(c).scale for c in x.T])


SC = {"mad": median_abs_deviation, "std": np.std, "qn": qn}
PAR = [(1.5, 4.0, 1.540793, 0.8622731), (1.2, 3.0, 1.3, 0.9), (2.0, 4.5, 1.9, 0.7), (1.5, 4.0, 1.540793, 0.8622731)]


def run(c, rng):
    n, p = c["n"], c["p"]
    n = max(n, p + 4)
    X = multi(rng, c["kind"], n, p)
    if c["kind"] == "ties":
        X = rng.integers(-5, 6, (n, p)) + rng.integers(-3, 4, (n, 1)) + 0.0
    rec = {"est": c["est"], "X": clean(X), "p": p}
    if c["est"] == "ogk":
        rec.update(it=c["it"], lk=c["lk"], sk=c["sk"], rw=c["rw"] == "T", beta=c["beta"])
        # reweighting may leave too few observations for a regular covariance
        rec["dst"], m = attempt(lambda: OGK(location_estimator=np.median if c["lk"] == "median" else np.mean, scale_estimator=SC[c["sk"]], n_iterations=c["it"],
                                            reweighting=rec["rw"], reweighting_beta=c["beta"] / 1000).fit(X))
        rec["out"] = {"loc": Vv(m.location_, p), "cov": M(m.covariance_, p, p)} if m is not None else {}
    elif c["est"] == "wrap":
        b, cc, q1, q2 = PAR[c["par"]]
        rec.update(b=b, c=cc, q1=q1, q2=q2)
        cen = {"assume_centered": True} if c["cen"] == "T" else {}
        rec["cen"] = bool(cen)
        m = (WrappingCovariance(**cen) if c["par"] == 3 else WrappingCovariance(b=b, c=cc, q1=q1, q2=q2, **cen)).fit(X)
        rec["out"] = {"loc": Vv(m.location_, p), "cov": M(m.covariance_, p, p), "cor": M(m.correlation, p, p)}
    elif c["est"] == "ddcw":
        X = np.array(X, float)
        if c["bigcol"]:  # a column in which more than a quarter of the cells deviates
            X[: int(0.3 * n), : c["bigcol"]] += 8 * np.std(X, axis=0)[: c["bigcol"]]
            X = X[rng.permutation(n)]
        if c["miss"] == 1:
            X[int(rng.integers(n)), int(rng.integers(p))] = np.nan
        elif c["miss"]:
            X[rng.uniform(size=X.shape) < c["miss"] / 100] = np.nan
        d = DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping()).fit(pd.DataFrame(X))
        imp = d.impute(pd.DataFrame(X), impute_outliers=True).to_numpy()
        rec.update(X=clean(X), alpha=c["alpha"] / 1000, lmin=float(c["lmin"]),
                   ddc={"loc": Vv(d.location_, p), "sc": Vv(d.scale_, p), "flag": [[bool(v) for v in q] for q in np.asarray(d.cellwise_outliers_)],
                        "res": clean(np.asarray(d.standardized_residuals_, float)), "rowout": [bool(v) for v in np.asarray(d.row_outliers_)], "imp": clean(imp)})
        # may be degenerate: no spread left in the kept directions
        rec["dst"], m = attempt(lambda: InitialDDCW(alpha=rec["alpha"], min_eigenvalue=rec["lmin"]).fit(X))
        rec["out"] = {"loc": Vv(m.location_, p), "cov": M(m.covariance_, p, p)} if m is not None else {}
    else:
        # degenerate (a singular matrix has no distances): integer data with many ties
        rec["dst"], m = attempt(lambda: KendallTau().fit(X))
        rec["out"] = {} if m is None else {"loc": Vv(m.location_, p), "cov": M(m.covariance_, p, p), "cor": M(m.correlation, p, p)}
    return rec
