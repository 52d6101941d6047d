import hashlib
import matplotlib.pyplot as plt
from apikit import *
from robpy.utils.outlyingness import stahel_donoho
from robpy.utils.median import l1median, weighted_median
from robpy.utils.distance import mahalanobis_distance
from robpy.utils.general import inverse_submatrix
from robpy.utils.rho import TukeyBisquare, Huber
from robpy.preprocessing.utils import wrapping_transformation
from robpy.covariance.utils.alter_covariance import truncated_covariance, covariance_to_correlation
from robpy.covariance.utils.cellmcd_utils import objective_function
from robpy.univariate import adjusted_boxplot
from robpy.pca.base import get_od_cutoff
CASE_TIMEOUT = 90


def h(b):
    return hashlib.sha256(b).hexdigest()[:12]


def raw(a):
    a = np.asarray(a)
    return repr(a.tolist()).encode() if a.dtype == object else np.ascontiguousarray(a).tobytes()


def snap(x):
    if isinstance(x, pd.DataFrame):
        return {"val": h(b"".join(raw(x.iloc[:, j]) for j in range(x.shape[1]))), "dtype": "|".join(map(str, x.dtypes)) + "|" + str(x.index.dtype), "labels": h(repr((list(x.index), list(x.columns), x.index.name, x.columns.name, dict(x.attrs))).encode()), "layout": f"{x.shape}"}
    if isinstance(x, pd.Series):
        return {"val": h(raw(x)), "dtype": str(x.dtype), "labels": h(repr((list(x.index), x.name)).encode()), "layout": f"{x.shape}"}
    if isinstance(x, np.ndarray):
        return {"val": h(raw(x)), "dtype": str(x.dtype), "labels": "", "layout": f"{x.shape}{x.strides}{x.flags.writeable}{x.flags.c_contiguous}"}
    return {"val": h(repr(x).encode()), "dtype": type(x).__name__, "labels": "", "layout": str(len(x)) if hasattr(x, "__len__") else ""}


def contain(x, cont):
    """(object to pass, objects of the caller to watch)"""
    x = np.array(x)
    if cont in ("int", "iframe"):
        x = np.round(5 * x.astype(float)) if np.isfinite(x.astype(float)).all() else x
        x = x.astype(int) if np.isfinite(x.astype(float)).all() else x
    if cont == "f":
        x = np.asfortranarray(x)
    if cont == "rev":
        base = x[::-1].copy()
        return base[::-1], [base]
    if cont == "view":
        base = np.full(tuple(2 * s + 1 for s in x.shape), -77.0)
        v = base[tuple(slice(1, None, 2) for _ in x.shape)]
        v[...] = x
        return v, [v, base]
    if cont in ("frame", "framev", "iframe"):
        ix = [f"r{i}" for i in range(len(x))]
        if x.ndim == 1:
            s = pd.Series(x, index=ix, name="s")
            return s, [s]
        if cont == "framev":  # shares memory with an array of the caller
            base = np.array(x)
            d = pd.DataFrame(base, index=ix, columns=[f"k{j}" for j in range(x.shape[1])], copy=False)
            return d, [d, base]
        d = pd.DataFrame(x, index=ix, columns=[f"k{j}" for j in range(x.shape[1])])
        return d, [d]
    return x, [x]


def spoil(x, bad, rng):
    if bad == "none" or not np.issubdtype(np.asarray(x).dtype, np.floating):
        return x
    x = np.array(x)
    if bad in ("centred", "unit"):
        x = x - np.median(x, axis=0)
        if bad == "unit":
            x = x / np.median(np.abs(x), axis=0)
    elif bad == "sorted":
        x = x[np.argsort(x.reshape(len(x), -1)[:, 0])]
    elif bad == "const":
        x[(slice(None),) + (0,) * (x.ndim - 1)] = 1.0
    else:
        x[(1,) + (0,) * (x.ndim - 1)] = {"nan": np.nan, "inf": np.inf}[bad]
    return x


UNIARR = {"uni", "power"}  # documented for arrays


def run(c, rng):
    watch, steps = [], []

    def own(x, cont=c["cont"]):
        o, w = contain(x, cont)
        watch.extend(w)
        return o

    before = []

    def call(name, f):
        if not before:
            before.extend(snap(x) for x in watch)
        st, v = attempt(f)
        steps.append({"call": name, "raised": st != "ok", "exc": st, "after": [snap(x) for x in watch]})
        plt.close("all")
        return v

    if c["what"] == "util":
        util(c, rng, own, call)
        return {"before": before, "steps": steps, "plain": False}
    cls, fam = c["cls"], FAM[c["cls"]]
    p = c["p"]
    cont = c["cont"]
    args, new = dataset(cls, rng, "normal", c["n"], p)
    if fam in ("ddc", "clean"):
        bad = {"none": None, "nan": np.nan, "inf": np.inf}.get(c["bad"])
        df = args[0].copy()
        if bad is not None:
            df.iloc[2, 0] = bad
        if c["bad"] == "const":
            df.iloc[:, 0] = 1.0
        if c["bad"] in ("centred", "unit", "sorted"):
            num = df.columns[:p]
            df[num] = df[num] - df[num].median()
            if c["bad"] == "unit":
                df[num] = df[num] / df[num].abs().median()
            elif c["bad"] == "sorted":
                df = df.sort_values(df.columns[0]).copy()
        if cont == "iframe":
            df = df.fillna(0).assign(**{k: (3 * df[k].replace([np.inf, -np.inf], 0).fillna(0)).astype(int) for k in df.columns[:p]})
        if cont == "framev":
            df.index = [f"r{i}" for i in range(len(df))]
        if cont == "rev":
            df = df.iloc[::-1]
        args = (df,)
        watch.extend([df, new])
    else:
        if fam in UNIARR and cont in ("frame", "framev", "iframe"):
            cont = "c"
        args = tuple(own(spoil(a, c["bad"], rng), cont) for a in args)
        if new is not None:
            new = own(new, "c" if fam in UNIARR else cont if cont != "int" else "c")
    o = MAKE[cls](1)
    call("fit", lambda: o.fit(*args))
    for op in READS[fam]:
        call(op, lambda: read(cls, o, op, new))
    if fam in ("cov", "init"):
        call("plot", lambda: o.distance_distance_plot())
        call("score", lambda: o.score(new)) if cls not in CELL else None
        if cls in ("cell", "cell9"):
            names = [f"n{i}" for i in range(len(args[0]))]
            watch.append(names); before.append(snap(names))
            for s in steps:
                s["after"].append(snap(names))
            for t in ("indexplot", "residuals_vs_variable", "residuals_vs_predictions", "variable_vs_predictions", "bivariate"):
                call(t, lambda: o.cell_MCD_plot(0, row_names=names, second_variable=1, plottype=t))
    if fam == "uni":
        call("ignore_nan", lambda: MAKE[cls](1).fit(*args, ignore_nan=True))
    if fam == "reg":
        call("predict", lambda: o.predict(args[0]))
        call("score", lambda: o.score(args[0], args[1]))
        for a in (True, False):
            call("outlier_map", lambda: o.outlier_map(*args, robust_scaling=a, robust_distance=a))
    if fam == "pca":
        call("plot_outlier_map", lambda: o.plot_outlier_map(args[0]))
        call("fit_transform", lambda: MAKE[cls](1).fit_transform(args[0]))
    if fam in ("scaler", "power"):
        call("fit_transform", lambda: MAKE[cls](1).fit_transform(args[0]))
        call("transform", lambda: o.transform(args[0]))
        call("inverse", lambda: o.inverse_transform(args[0]))
    if fam == "scaler":
        call("ignore_nan", lambda: MAKE[cls](1).fit(*args, ignore_nan=True))
    if fam == "clean":
        call("transform", lambda: o.transform(args[0]))
        call("fit_transform", lambda: MAKE[cls](1).fit_transform(args[0])) if hasattr(o, "fit_transform") else None
    if fam == "ddc":
        call("predict", lambda: o.predict(args[0]))
        call("impute", lambda: o.impute(args[0]))
        call("impute2", lambda: o.impute(args[0], impute_outliers=False))
        call("fit_predict", lambda: MAKE[cls](1).fit_predict(args[0]))
        if len(args[0]) <= 40:
            call("cellmap", lambda: o.cellmap(args[0], annotate=True, row_zoom=(0, 5), col_zoom=args[0].columns[:2]))
    plain = c["bad"] == "none" and p == 3 and not (fam in ("uni", "power") and c["cont"] == "view") and cont not in ("int", "iframe")
    return {"before": before, "steps": steps, "plain": plain}


def util(c, rng, own, call):
    n, p, fn = c["n"], c["p"], c["fn"]
    X = spoil(rng.normal(size=(n, p)), c["bad"], rng)
    A = np.cov(rng.normal(size=(30, p)), rowvar=False)
    arr = "c" if c["cont"] in ("frame", "framev", "iframe") else c["cont"]
    if fn == "stahel_donoho":
        x = own(X, arr)
        call(fn, lambda: stahel_donoho(x, n_dir=20, random_seed=1)); call(fn, lambda: stahel_donoho(x, n_points=3, n_dir=20, random_seed=1))
    elif fn == "l1median":
        x = own(X, arr); call(fn, lambda: l1median(x))
    elif fn == "weighted_median":
        x, w = own(X[:, 0], arr), own(rng.uniform(1, 2, n), arr if arr != "int" else "c"); call(fn, lambda: weighted_median(x, w))
    elif fn == "mahalanobis_distance":
        x, l, a = own(X), own(np.zeros(p), arr), own(A, arr if arr != "int" else "c"); call(fn, lambda: mahalanobis_distance(x, l, a))
    elif fn == "wrapping_transformation":
        x = own(X, arr)
        for r in (True, False):
            call(fn, lambda: wrapping_transformation(x, rescale=r))
    elif fn == "inverse_submatrix":
        a, b = own(A, arr if arr != "int" else "c"), own(np.linalg.inv(A), arr if arr != "int" else "c")
        for ix in ([0], [1, 2], [2, 0], [0, 1, 2]):
            k = own(np.array(ix), "c") if False else np.array(ix)
            call(fn, lambda: inverse_submatrix(a, b, k))
    elif fn == "truncated_covariance":
        a = own(A - 0.5 * np.eye(p), arr if arr != "int" else "c"); call(fn, lambda: truncated_covariance(a, 0.1))
    elif fn == "covariance_to_correlation":
        a = own(A, arr if arr != "int" else "c"); call(fn, lambda: covariance_to_correlation(a))
    elif fn == "adjusted_boxplot":
        x, y = own(X), own(X[:, 0])
        for pl in (True, False):
            call(fn, lambda: adjusted_boxplot(x, plot=pl)); call(fn, lambda: adjusted_boxplot(y, plot=pl))
    elif fn in ("bisquare", "huberrho"):
        x = own(X, arr); r = TukeyBisquare(c=1.5) if fn == "bisquare" else Huber(b=1.5)
        call("rho", lambda: r.rho(x)); call("psi", lambda: r.psi(x))
    elif fn == "od_cutoff":
        x = own(np.abs(X[:, 0]) if c["bad"] == "none" else X[:, 0], arr); call(fn, lambda: get_od_cutoff(x))
    elif fn == "lambda_range":
        lr, x = own([-2.0, 4.0], "c"), own(X[:, 0], arr)
        l2 = [-2.0, 4.0]
        call(fn, lambda: RobustPowerTransformer(lambda_range=lr).fit(x)); call(fn, lambda: RobustPowerTransformer(lambda_range=l2).fit(x)); call("l2", lambda: None if l2 == [-2.0, 4.0] else 1 / 0)
    elif fn == "initial_weights":
        x, y, w = own(X), own(X[:, 0] + rng.normal(size=n)), own(rng.uniform(0.1, 1, n), arr if arr != "int" else "c")
        call(fn, lambda: FastLTSRegression(n_initial_subsets=5).fit(x, y, initial_weights=w))
    elif fn == "cellobjective":
        W = np.ones((n, p)); W[0, 0] = 0
        x, w, l, a, b = own(X, arr), own(W, "c"), own(np.zeros(p), "c"), own(A, "c"), own(np.linalg.inv(A), "c")
        call(fn, lambda: objective_function(x, w, l, a, b))
