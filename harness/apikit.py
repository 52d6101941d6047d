"""The public API by name, shared by the drivers of the API-wide properties (C19-C23)."""
import os, pickle
import numpy as np, pandas as pd
from kit import *
from covkit import COV, tau_scale
from robpy.covariance import FastMCD, DetMCD, OGK, WrappingCovariance, KendallTau, CellMCD
from robpy.covariance.initial_ddcw import InitialDDCW
from robpy.regression import FastLTSRegression, SRegression, MMRegression
from robpy.pca import ROBPCA, PCALocantore
from robpy.univariate import UnivariateMCD, Tau, Qn, HuberOneStepM, CellwiseOneStepM, OneStepWrapping
from robpy.preprocessing import RobustScaler, RobustPowerTransformer, DataCleaner
from robpy.outliers import DDC

UNI = {"umcd": lambda s=1: UnivariateMCD(), "umcda": lambda s=1: UnivariateMCD(alpha=0.8, consistency_correction=False), "tau": lambda s=1: Tau(), "qn": lambda s=1: Qn(),
       "huber": lambda s=1: HuberOneStepM(), "cellm": lambda s=1: CellwiseOneStepM(), "wrap1": lambda s=1: OneStepWrapping()}
# few starts: a search that differs is seen in its result
REG = {"ltsfew": lambda s=1: FastLTSRegression(n_initial_subsets=2, n_best_models=1, n_initial_c_steps=1, random_state=s, reweighting=False),
       "sfew": lambda s=1: SRegression(n_initial_subsets=2, n_best_subsets=1, random_state=s), "lts": lambda s=1: FastLTSRegression(n_initial_subsets=40, random_state=s), "ltsraw": lambda s=1: FastLTSRegression(n_initial_subsets=40, alpha=0.7, reweighting=False, random_state=s),
       "s": lambda s=1: SRegression(n_initial_subsets=40, random_state=s), "snoint": lambda s=1: SRegression(n_initial_subsets=40, fit_intercept=False, random_state=s),
       "mm": lambda s=1: MMRegression(initial_estimator=SRegression(n_initial_subsets=40, random_state=s)), "mmdef": lambda s=1: MMRegression(),
       "mm0": lambda s=1: MMRegression(initial_estimator=SRegression(n_initial_subsets=40, random_state=s), max_iterations=0)}
PCA_ = {"robpca": lambda s=1: ROBPCA(random_seed=s), "robpca2": lambda s=1: ROBPCA(n_components=2, final_MCD_step=False, random_seed=s), "loc": lambda s=1: PCALocantore(), "loc2": lambda s=1: PCALocantore(n_components=2)}
SCALER = {"scaler": lambda s=1: RobustScaler(), "scalerq": lambda s=1: RobustScaler(scale_estimator=Qn()), "scalernc": lambda s=1: RobustScaler(with_centering=False, scale_estimator=Tau())}
POWER = {"yj": lambda s=1: RobustPowerTransformer(), "bc": lambda s=1: RobustPowerTransformer(method="boxcox"), "auto": lambda s=1: RobustPowerTransformer(method="auto"),
         "yjraw": lambda s=1: RobustPowerTransformer(standardize=False)}
DDC_ = {"ddc": lambda s=1: DDC(), "ddcq": lambda s=1: DDC(scale_estimator=UnivariateMCD(), chi2_quantile=0.95)}
CLEAN = {"clean": lambda s=1: DataCleaner(), "clean2": lambda s=1: DataCleaner(clean_na_first="columns", max_missing_frac_cols=0.1)}
INIT = {"ddcw": lambda s=1: InitialDDCW()}
MAKE, FAM = {}, {}
for fam, d in (("uni", UNI), ("cov", COV), ("reg", REG), ("pca", PCA_), ("scaler", SCALER), ("power", POWER), ("ddc", DDC_), ("clean", CLEAN), ("init", INIT)):
    for k, v in d.items():
        MAKE[k] = v
        FAM[k] = fam
CELL = {"cell", "cell9", "ddcw"}


def dataset(cls, rng, kind, n, p):
    """(args of fit, rows for predict) for an object of the class"""
    fam = FAM[cls]
    if fam == "uni":
        return (uni(rng, kind, n),), None
    if fam == "power":
        x = uni(rng, kind, n).astype(float)
        x = np.abs(x) + 0.5 if cls == "bc" else x
        return (x,), np.abs(x[: n // 2]) * 0.7 + 0.1
    if fam in ("cov", "init"):
        n = max(n, 6 * p + 10, 40) if cls in CELL else max(n, 4 * p + 4)
    if fam in ("pca", "ddc", "reg"):
        n = max(n, 5 * p + 4, 16)
    X = multi(rng, kind, n, p).astype(float)
    new = multi(rng, "normal", 6, p)
    if fam == "reg":
        y = X @ rng.normal(size=p) + 2 + rng.normal(size=n)
        y[: n // 6] += 30
        return (X, y), new
    if fam == "ddc":
        X[rng.uniform(size=X.shape) < 0.05] = np.nan
        new = np.vstack([new] * 4) * np.linspace(0.3, 3, 24)[:, None]  # row flags that depend on the fitted cutoff
        X[: n // 4] *= np.linspace(1, 4, n // 4)[:, None]
        new[0, 0] = np.nan
        return (pd.DataFrame(X, columns=[f"v{j}" for j in range(p)]),), pd.DataFrame(new, columns=[f"v{j}" for j in range(p)])
    if fam == "clean":
        df = pd.DataFrame(X, columns=[f"v{j}" for j in range(p)])
        df.iloc[rng.permutation(n)[: n // 5], 0] = np.nan
        df.iloc[0, :] = np.nan
        df["d"] = rng.integers(0, 2, n)
        df["t"] = "a"
        df["r"] = np.arange(n)
        return (df,), df.iloc[: n // 2]
    return (X,), new


READS = {"uni": ["est"], "cov": ["est", "maha"], "reg": ["est", "predict"], "pca": ["est", "transform", "project"], "scaler": ["est", "transform", "inverse"],
         "power": ["est", "transform", "inverse"], "ddc": ["est", "predict", "predictrow", "impute"], "clean": ["transform", "est"], "init": ["est"]}


def nums(*xs):
    out = []
    for x in xs:
        if isinstance(x, (pd.DataFrame, pd.Series)):
            x = x.to_numpy()
        out += [float(v) for v in np.asarray(x, dtype=float).reshape(-1)]
    return out


def read(cls, o, op, new):
    """the numbers a read-only call gives"""
    fam = FAM[cls]
    if op == "est":
        if fam == "uni":
            return nums(o.location, o.scale)
        if fam in ("cov", "init"):
            return nums(o.location_, o.covariance_, o.precision_ if o.store_precision else [], getattr(o, "_robust_distances", [])) + (nums(o.W, o.predictions, o.residuals) if cls in ("cell", "cell9") else [])
        if fam == "reg":
            m = o.model
            return nums(o.scale) + (nums(m.coef_, m.intercept_) if hasattr(m, "coef_") else nums(getattr(m, "params", [])))
        if fam == "pca":
            return nums(o.location_, o.components_, o.explained_variance_, getattr(o, "explained_variance_ratio_", getattr(o, "explained_variance_ratio", [])), o.n_components_)
        if fam == "scaler":
            return nums(o.locations_, o.scales_)
        if fam == "power":
            return nums(o.lambda_rew)
        if fam == "ddc":
            return nums(o.location_, o.scale_, o.robust_correlation_, o.slopes_, o.deshrinkage_, o.cellwise_outliers_, o.row_outliers_, o.standardized_residuals_, o.rescaled_predictions_,
                        *[getattr(getattr(o, "t_scale_est", None), k, []) for k in ("location", "scale")])
        if fam == "clean":
            return nums([[hash_str(k), hash_str(v)] for k, vs in o.dropped_columns.items() for v in vs] + [[0, float(hash_str(v))] for v in o.dropped_rows["rows_missings"]])
    if op == "maha":
        return nums(o.mahalanobis(new))
    if op == "predict":
        if fam == "ddc":
            a, b = o.predict(new)
            return nums(a, b)
        return nums(o.predict(new))
    if op == "predictrow":
        return nums(o.predict(new, rowwise=True))
    if op == "impute":
        return nums(o.impute(new))
    if op == "transform":
        if fam == "clean":
            X = o.transform(new)
            return nums([hash_str(v) for v in X.columns], [hash_str(v) for v in X.index], X)
        return nums(o.transform(new))
    if op == "project":
        return nums(o.project(new))
    if op == "inverse":
        return nums(o.inverse_transform(o.transform(new)))
    raise KeyError(op)


def hash_str(s):
    return sum((i + 1) * ord(ch) for i, ch in enumerate(str(s)))


def _args(v):
    import inspect
    return inspect.signature(type(v).__init__).parameters


def simple(v, depth=0):
    """a constructor parameter as a string"""
    if v is None or isinstance(v, (bool, int, float, str)):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(simple(x, depth) for x in v) + "]"
    if callable(v) and not hasattr(v, "__dict__") or type(v).__name__ in ("function", "ufunc", "_ArrayFunctionDispatcher"):
        return getattr(v, "__name__", "f")
    if type(v).__name__ == "Logger":
        return "logger"
    if isinstance(v, np.ndarray):
        return v.tobytes().hex()
    if hasattr(v, "__dict__") and depth < 3:
        return type(v).__name__ + "{" + ",".join(f"{k}={simple(x, depth + 1)}" for k, x in sorted(vars(v).items()) if "logger" not in k and (k in _args(v) or k == "model" or k.endswith("_") and not k.startswith("_"))) + "}"
    return type(v).__name__


def params(o, deep=True):
    """the constructor parameters an object has now (attributes named as the constructor's arguments)"""
    import inspect
    return "; ".join(f"{k}={simple(getattr(o, k, 'absent'), 0 if deep else 3)}" for k in sorted(inspect.signature(type(o).__init__).parameters) if k not in ("self", "verbosity", "args", "kwargs"))


def forked(f):
    """f() in a forked copy of this process, so that nothing it does to module state remains; ('ok', value) or (error name, text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ("ok", f())
            except Exception as e:  # noqa
                out = (type(e).__name__, str(e)[:200])
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        b = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else ("Crashed", "")
