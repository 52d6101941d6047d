from covkit import *
from robpy.covariance.initial_ddcw import InitialDDCW
from robpy.preprocessing import RobustScaler
from robpy.univariate import OneStepWrapping

CASE_TIMEOUT = 100
cost = lambda c: c["n"] * c["p"] * c["cs"]


def run(c, rng):
    p, alpha, quant = c["p"], c["alpha"] / 1000, c["quant"] / 1000
    n = max(c["n"], 5 * p)
    X = multi(rng, c["kind"], n, p).astype(float)
    sd = np.median(np.abs(X - np.median(X, axis=0)), axis=0) * 1.5
    m = rng.uniform(size=X.shape) < c["out"] / 100
    X[m] += (rng.choice([-1, 1], X.shape) * rng.uniform(4, 40, X.shape) * sd)[m]
    X[rng.uniform(size=X.shape) < c["miss"] / 100] = np.nan
    if c["emptyrow"] == "T":
        X[int(rng.integers(n))] = np.nan
    crit, lmin = {"tight": 1e-8, "def": 1e-4, "loose": 5e-2}[c["crit"]], {"def": 1e-4, "big": 0.1}[c["lmin"]]
    mk = lambda: CellMCD(alpha=alpha, quantile=quant, crit=crit, max_c_steps=c["cs"], min_eigenvalue=lmin)
    rec = {"X": clean(X), "h": 0, "quant": quant, "crit": crit, "lmin": lmin, "cs": c["cs"], "accepted": True}
    e = mk()
    if c["hist"] == "refit":
        e.fit(rng.normal(size=(60, p + 1)) @ rng.normal(size=(p + 1, p + 1)))
    elif c["hist"] == "small":
        attempt(lambda: e.fit(rng.normal(size=(11, 2))))
    arg = frame(rng, X, "perm") if c["form"] == "frame" else X.copy()
    try:
        e.fit(arg)
    except ValueError as ex:  # documented rejections (the conditions are the subject of C22)
        if any(t in str(ex) for t in ("outliers", "nan's", "observations", "almost zero")):
            return {**rec, "accepted": False}
        raise
    af = max(alpha, (n // 2 + 1) / n)
    rec["h"] = int(round(af * n))
    f = mk().fit(X.copy())
    get = lambda q: [np.asarray(a, float) for a in (q.W, q.location_, q.covariance_, q.predictions, q.conditional_stds, q.residuals, q.X_imputed)]
    same = all(np.allclose(a, b, rtol=1e-10, atol=1e-10 * np.nanmax(np.abs(b)), equal_nan=True) for a, b in zip(get(e), get(f)))
    sc = RobustScaler(scale_estimator=OneStepWrapping()).fit(X, ignore_nan=True)
    init = InitialDDCW(alpha=af, min_eigenvalue=lmin).fit((X - sc.locations_) / sc.scales_)
    raw = (X - np.asarray(e.predictions)) / np.asarray(e.conditional_stds)
    rec.update(sloc=Vv(sc.locations_, p), sscale=Vv(sc.scales_, p), init={"loc": Vv(init.location_, p), "cov": M(init.covariance_, p, p)},
               rscale=[float(OneStepWrapping().fit(raw[:, j][~np.isnan(raw[:, j])]).scale) for j in range(p)])
    rec["out"] = {"W": M(e.W, n, p), "loc": Vv(e.location_, p), "cov": M(e.covariance_, p, p), "pred": M(e.predictions, n, p), "cstd": M(e.conditional_stds, n, p),
                  "res": M(e.residuals, n, p), "imp": M(e.X_imputed, n, p), "same": bool(same)}
    return rec
