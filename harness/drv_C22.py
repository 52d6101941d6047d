import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from apikit import *
CASE_TIMEOUT = 60
OPS = {"uni": ["scale", "location"], "cov": ["covariance", "correlation", "mahalanobis", "distance_distance_plot"], "reg": ["scale", "predict_reg", "outlier_map"],
       "pca": ["transform", "project", "plot_outlier_map"], "scaler": ["transform", "inverse_transform"], "power": ["transform", "inverse_transform"],
       "ddc": ["predict", "predictrow", "impute", "cellmap"], "clean": ["transform_clean", "dropped_columns", "dropped_rows"], "init": ["covariance", "mahalanobis"]}
BYPARAM = {"fast": lambda **k: FastMCD(n_initial_subsets=20, random_seed=1, **k), "det": DetMCD, "umcd": UnivariateMCD, "lts": lambda **k: FastLTSRegression(n_initial_subsets=20, **k), "robpca": ROBPCA,
           "cell": CellMCD, "ddcw": InitialDDCW, "clean": DataCleaner, "yj": RobustPowerTransformer, "bc": RobustPowerTransformer}


def call(o, op, args, new):
    X = new if new is not None else args[0]
    if op in ("scale", "location", "covariance", "correlation", "dropped_columns", "dropped_rows"):
        return getattr(o, op)
    if op == "predict_reg":
        return o.predict(X)
    if op == "predictrow":
        return o.predict(X, rowwise=True)
    if op == "outlier_map":
        return o.outlier_map(*args, return_data=True)
    if op == "distance_distance_plot":
        return o.distance_distance_plot()
    if op == "cell_MCD_plot":
        return o.cell_MCD_plot(0, "x")
    if op == "transform_clean":
        return o.transform(X)
    return getattr(o, op)(X)


def reads(cls, o, args, new):
    out = []
    for op in OPS[FAM[cls]] + (["cell_MCD_plot"] if cls in ("cell", "cell9") else []):
        e, _ = attempt(lambda: call(o, op, args, new))
        plt.close("all")
        out.append({"op": op, "answer": "value" if e == "ok" else "raised", "err": "" if e == "ok" else e})
    return out


def err(f):
    e, v = attempt(f)
    plt.close("all")
    return ("" if e == "ok" else e), v


def invalid(cls, args, k):
    """arguments of a fit that has to raise"""
    fam = FAM[cls]
    if fam == "uni" and k == 1:
        return (np.ones((6, 2)),)
    if fam in ("ddc",):
        return (pd.DataFrame({"a": [1.0, 2.0] * 5, "b": np.arange(10.0)}),)
    if fam == "clean":
        return (args[0].to_numpy(),)
    if fam == "init" or cls in ("cell", "cell9"):
        return (np.asarray(args[0])[:4] * 0 + 1.0,)
    a = np.array(args[0], dtype=float)
    a.reshape(-1)[[-1, len(a) // 2][k - 1]] = np.nan
    return (a, *args[1:])


def nanify(rng, x, spot):
    a = np.array(x, dtype=float)
    n = len(a)
    if a.ndim == 1:
        i = {"first": [0], "last": [n - 1], "one": [n // 2], "column": range(n), "all": range(n), "half": rng.permutation(n)[: n // 2]}.get(spot, rng.permutation(n)[: max(1, n // 6)])
        a[list(i)] = np.nan
        return a
    p = a.shape[1]
    if spot == "first":
        a[0, 0] = np.nan
    elif spot == "last":
        a[-1, -1] = np.nan
    elif spot == "one":
        a[rng.integers(n), rng.integers(p)] = np.nan
    elif spot == "column":
        a[:, rng.integers(p)] = np.nan
    elif spot == "row":
        a[rng.integers(n)] = np.nan
    elif spot == "all":
        a[:] = np.nan
    elif spot == "half":
        for j in range(p):
            a[rng.permutation(n)[: n // 2], j] = np.nan
    else:
        m = rng.uniform(size=a.shape) < 0.1
        m[rng.integers(n), rng.integers(p)] = True
        a[m] = np.nan
    return a


def run(c, rng):
    what, cls = c["what"], c["cls"]
    fam = FAM[cls]
    p = c.get("p", 3)
    if p == 1 and (fam in ("pca", "ddc", "init") or cls in CELL or cls in ("det", "detraw", "ogk", "ogkrw", "wrap", "kendall")):
        p = 2
    if what == "early":
        args, new = dataset(cls, rng, "normal", 30, p)
        o = MAKE[cls](1)
        fits = []
        for k in range({"new": 0, "failed": 1, "failed2": 2}[c["hist"]]):
            e, _ = attempt(lambda: o.fit(*invalid(cls, args, k + 1)))
            fits.append({"answer": "value" if e == "ok" else "raised", "err": e})
        return {"fits": fits, "reads": reads(cls, o, args, new)}
    if what == "nan":
        args, new = dataset(cls, rng, "normal", c["n"], p)
        args = list(args)
        if c["spot"].startswith("y") and fam == "reg":
            args[1] = nanify(rng, args[1], {"y": "one", "yfirst": "first", "yall": "all"}[c["spot"]])
        else:
            args[0] = nanify(rng, args[0], c["spot"] if not c["spot"].startswith("y") else "scatter")
        good = dataset(cls, rng, "normal", c["n"], p)[0]
        if c["cont"] == "frame" and fam in ("cov", "reg", "scaler", "pca"):
            args[0] = pd.DataFrame(args[0])
            if fam == "reg":
                args[1] = pd.Series(args[1])
        elif c["cont"] == "f":
            args[0] = np.asfortranarray(args[0])
        o = MAKE[cls](1)
        e, _ = err(lambda: o.fit(*args))
        return {"err": e, "reads": reads(cls, o, good, new)}
    if what == "shape":
        X = rng.normal(size=(c["n"], c["p"]) + ((2,) if c["dims"] == 3 else ()))
        o = MAKE[cls](1)
        e, _ = err(lambda: o.fit(X, ignore_nan=c["ign"]))
        return {"err": e}
    if what == "param":
        n = 31
        v = c["v"]
        par, text = c["param"], ""
        if c["kind"] == "float":
            val = float(v)
        elif c["kind"] == "int":
            val = {"lo": 16, "lo-1": 15, "n": n, "n+1": n + 1, "n-1": n - 1, "mid": 23}.get(v)
            val = int(v) if val is None else val
        else:
            val = text = v
        c2 = "cell" if cls == "cell" else cls
        args, _ = dataset("clean" if cls == "clean" else "cell" if cls in ("cell", "ddcw") else c2, rng, "normal", n, 3)
        if cls in ("cell", "ddcw"):  # no marginal outliers, which alpha = 1 does not allow
            args = (rng.uniform(-1, 1, size=np.shape(args[0])) + rng.uniform(-0.3, 0.3, size=(len(args[0]), 1)),)
        if cls == "yj":
            args = (np.abs(args[0]) + 0.3,)
        if cls in ("fast", "det", "robpca", "lts", "umcd"):
            args = tuple(a[:n] for a in args)
            if len(args[0]) < n:
                raise Malformed("short")
        if par == "positive":
            x = np.abs(rng.normal(size=30)) + 0.2
            o = RobustPowerTransformer(method="boxcox")
            if v.startswith("fit"):
                x[7] = 0.0 if v == "fitzero" else -0.1
                e, _ = err(lambda: o.fit(x))
            else:
                o = (RobustPowerTransformer(method="boxcox") if v != "autotransf" else RobustPowerTransformer()).fit(x)
                if o.method_ != "boxcox":
                    o.method = "boxcox"
                    o.fit(x)
                z = x.copy()
                z[3] = 0.0 if v == "transfzero" else -2.0
                e, _ = err(lambda: o.transform(z))
            return {"err": e, "value": 0, "text": v, "param": par, "kind": c["kind"], "n": n}

        def go():
            o = BYPARAM[cls](**{par: val}) if par != "min_n_rows" else DataCleaner(min_n_rows=val)
            o.fit(*args)
            if cls == "clean":
                o.transform(args[0])
            return o
        if cls == "clean":
            n = len(args[0])
            val = {"n": n, "n+1": n + 1, "n-1": n - 1}.get(v, val)
        e, _ = err(go)
        return {"err": e, "value": 0 if c["kind"] == "text" else val if c["kind"] == "int" else float(val), "text": text, "param": par, "kind": c["kind"], "n": n}
    if what == "ddcinput":
        df, new = dataset(cls, rng, "normal", 30, 3)
        df, v = df[0], c["v"]
        o = MAKE[cls](1)
        if v == "string":
            df = df.assign(s=["a", "b", "c", "d", "e"] * (len(df) // 5) + ["f"] * (len(df) % 5))
        elif v == "bool":
            df = df.assign(s=[True, False] * (len(df) // 2) + [True] * (len(df) % 2))
        elif v == "few":
            df = df.assign(s=(np.arange(len(df)) % 3).astype(float))
        elif v == "constant":
            df = df.assign(v1=1.5)
        else:
            o.fit(df)
            if v == "predictcols":
                e, _ = err(lambda: o.predict(new.iloc[:, :2]))
            elif v == "imputecols":
                e, _ = err(lambda: o.impute(new.assign(z=1.0)))
            else:
                e, _ = err(lambda: o.predict(new.astype(object).assign(v1="a")))
            return {"err": e}
        e, _ = err(lambda: o.fit(df))
        return {"err": e}
    if what == "cellinput":
        X, v = rng.normal(size=(60, 3)), c["v"]
        o = MAKE[cls](1)
        if v == "madzero":
            X[:40, 1] = 2.0
        elif v == "fewrows":
            X = rng.normal(size=(19, 4))
        elif v == "manynan":
            X[:28, 2] = np.nan
        elif v == "manyout":
            X[:28, 2] = 1e3 + 100 * rng.normal(size=28)
        else:
            o = CellMCD().fit(X)
            e, _ = err(lambda: o.cell_MCD_plot(0, "x", plottype="bivariate"))
            return {"err": e}
        e, _ = err(lambda: o.fit(X))
        return {"err": e}
    if what == "nanok":
        X = multi(rng, "corr", c["n"], p)
        spot = c["spot"]
        if spot == "scatter":
            for j in range(p):
                X[rng.permutation(c["n"])[: int(c["frac"] * c["n"] / 100)], j] = np.nan
        else:
            X = nanify(rng, X, spot)
        o = MAKE[cls](1)
        df = pd.DataFrame(X, columns=[f"v{j}" for j in range(p)])

        def go():
            if fam == "ddc":
                o.fit(df)
                return nums(o.location_, o.scale_, o.robust_correlation_, o.deshrinkage_, o.impute(df), o.predict(df)[0])
            if fam == "clean":
                return nums(o.fit(df).transform(df).shape)
            o.fit(X)
            return nums(o.location_, o.covariance_)
        e, v = err(go)
        return {"err": e, "vals": v or []}
    if what == "nanign":
        x = rng.normal(size=c["n"]) if fam == "uni" else multi(rng, "normal", c["n"], p)
        z = nanify(rng, x, c["spot"])
        e, v = err(lambda: (lambda o: nums(o.location, o.scale) if fam == "uni" else nums(o.locations_, o.scales_))(MAKE[cls](1).fit(z, ignore_nan=True)))
        if fam == "uni":
            o = MAKE[cls](1).fit(z[~np.isnan(z)])
            w = nums(o.location, o.scale)
        else:
            os_ = [MAKE[cls](1).fit(col[~np.isnan(col)].reshape(-1, 1)) for col in z.T]
            w = nums([o.locations_[0] for o in os_], [o.scales_[0] for o in os_])
        return {"err": e, "vals": v or [], "without": w}
    args, new = dataset(cls, rng, "normal", c["n"], p)
    o = MAKE[cls](1).fit(*args)
    z = nanify(rng, multi(rng, "normal", 8, p), c["spot"])
    e, v = err(lambda: np.asarray(o.mahalanobis(z) if fam == "cov" else o.predict(z) if fam == "reg" else o.transform(z), dtype=float).reshape(len(z), -1))
    return {"err": e, "nanrows": [] if v is None else [[float(t) for t in v[i]] for i in np.flatnonzero(np.isnan(z).any(1))]}
