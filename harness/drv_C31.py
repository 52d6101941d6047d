import inspect, warnings
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.lines import AxLine
from apikit import *
from scipy.stats import median_abs_deviation
from robpy.utils.rho import TukeyBisquare, Huber
from robpy.univariate.onestep_m import OneStepM
from robpy.univariate import adjusted_boxplot
from robpy.utils.outlyingness import stahel_donoho
from robpy.preprocessing.utils import wrapping_transformation
from robpy import datasets
CASE_TIMEOUT = 120
ENV = dict(globals())
# class, family key of apikit, arguments that are always given
OBJ = {"umcd": (UnivariateMCD, "umcd", {}), "tau": (Tau, "tau", {}), "qn": (Qn, "qn", {}),
       "onestep": (lambda **k: OneStepM(Huber(b=1.5), TukeyBisquare(c=3), 0.8, **k), "huber", {}),
       "fast": (FastMCD, "fast", {"random_seed": 1}), "fastbig": (FastMCD, "fast", {"random_seed": 1, "n_initial_subsets": 20}), "fastmid": (FastMCD, "fast", {"random_seed": 1, "n_initial_subsets": 20}),
       "det": (DetMCD, "det", {}), "ogk": (OGK, "ogk", {}), "wrap": (WrappingCovariance, "wrap", {}), "cell": (CellMCD, "cell", {}), "ddcw": (InitialDDCW, "ddcw", {}),
       "lts": (FastLTSRegression, "lts", {}), "s": (SRegression, "s", {}), "mm": (MMRegression, "mm", {}), "robpca": (ROBPCA, "robpca", {"random_seed": 1}), "loc": (PCALocantore, "loc", {}),
       "scaler": (RobustScaler, "scaler", {}), "yj": (RobustPowerTransformer, "yj", {}), "ddc": (DDC, "ddc", {}), "clean": (DataCleaner, "clean", {})}
RHO = {"tukey": TukeyBisquare, "huber": Huber}


def val(s):
    return eval(s, dict(ENV))


def sarg(v):
    return simple(float(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else simple(v)


def change(v, depth=0):
    """change every nested default object of an object, in place"""
    for k, x in list(vars(v).items()):
        if k in ("model",) or "logger" in k or k.endswith("_"):
            continue
        if hasattr(x, "__dict__") and type(x).__module__.startswith("robpy"):
            for a in inspect.signature(type(x).__init__).parameters:
                y = getattr(x, a, None)
                if isinstance(y, bool):
                    setattr(x, a, not y)
                elif isinstance(y, int) and "random" not in a:
                    setattr(x, a, max(1, y // 100))
                elif isinstance(y, float):
                    setattr(x, a, y * 1.7)
            if depth < 2:
                change(x, depth + 1)


def drawn():
    """the numbers of everything drawn"""
    out = []
    for num in plt.get_fignums():
        for ax in plt.figure(num).axes:
            for l in ax.lines:
                out += nums(*(l.get_xy1(),)) if isinstance(l, AxLine) else nums(l.get_xdata(), l.get_ydata())
            for c in ax.collections:
                a = c.get_array()
                out += nums(np.ma.filled(np.ma.asarray(c.get_offsets(), float), 0.125)) + (nums(np.ma.filled(np.ma.asarray(a, float), 0.125)) if a is not None else [])
            for t in ax.texts:
                out += [float(hash_str(t.get_text()))]
    plt.close("all")
    return out


def fun(cls, data, n, rng, hist):
    """a function of keyword arguments giving numbers, and what it is called on"""
    X = multi(rng, data, n, 3).astype(float)
    y = X @ rng.normal(size=3) + rng.normal(size=n)
    y[: n // 6] += 30
    df = pd.DataFrame(X, columns=["a", "b", "c"])
    nan = X[:, 0].copy()
    nan[0] = np.nan
    if cls == "wrapfn":
        return lambda **k: nums(wrapping_transformation(X.copy(), **k))
    if cls == "stahel":
        return lambda **k: nums(stahel_donoho(X.copy(), random_seed=1, **k))
    if cls == "ltsfit":
        return lambda **k: nums(FastLTSRegression(n_initial_subsets=3, n_best_models=1).fit(X, y, **k).predict(X))
    if cls == "ddcfit":
        return lambda **k: nums(DDC().fit(df, **k).location_)
    if cls in ("ddcpredict", "ddcimpute", "cellmap"):
        d = DDC().fit(df)
        new = df.iloc[: n // 2] + 3.0
        if cls == "ddcpredict":
            return lambda **k: nums(*[np.asarray(a, float) for a in np.atleast_1d(d.predict(new, **k))]) if k.get("rowwise") else nums(*(d.predict(new, **k)))
        if cls == "ddcimpute":
            return lambda **k: nums(d.impute(df, **k))

        def cm(**k):
            d.cellmap(df, **k)
            return drawn()
        return cm
    if cls == "scalerfit":
        def sc(**k):
            s = RobustScaler().fit(nan.reshape(-1, 1) if hist == "none" else X, **k)
            return nums(s.locations_, s.scales_)
        return sc
    if cls == "unifit":
        def un(**k):
            s = UnivariateMCD().fit(nan if hist == "none" else X[:, 0], **k)
            return nums(s.location, s.scale)
        return un
    if cls == "ddplot":
        m = OGK().fit(X)

        def dd(**k):
            m.distance_distance_plot(**k)
            return drawn()
        return dd
    if cls == "regplot":
        m = FastLTSRegression(n_initial_subsets=20).fit(X, y)

        def om(**k):
            own, gen = np.random.get_state(), np.random.default_rng
            np.random.seed(5)
            np.random.default_rng = lambda s=None: gen(5 if s is None else s)  # its FastMCD takes no seed
            try:
                return om1(**k)
            finally:
                np.random.default_rng = gen
                np.random.set_state(own)

        def om1(**k):
            r = m.outlier_map(X, y, m.scale * 0 + y, **k) if "y_pred" in inspect.signature(m.outlier_map).parameters else m.outlier_map(X, y, **k)
            return drawn()
        return om
    if cls == "cellplot":
        m = CellMCD().fit(X)

        def cp(**k):
            m.cell_MCD_plot(variable=0, **k)
            return drawn()
        return cp
    if cls == "abox":
        def ab(**k):
            b = adjusted_boxplot(df, **k)
            return [float(len(plt.get_fignums()) > 0)] + nums([[q.median, q.q1, q.q3, q.upper_whisker, q.lower_whisker] for q in b]) + drawn()
        return ab
    if cls == "data":
        def da(**k):
            out = []
            for f in (datasets.load_telephone, datasets.load_stars, datasets.load_animals, datasets.load_glass):
                b = f(**k)
                out += [float(hash_str(type(b.data).__name__))] + nums(np.nansum(np.asarray(b.data, float), axis=0), np.shape(b.data))
            return out
        return da
    raise KeyError(cls)


def history(hist, make, key, names, alts, always, args, rng):
    """what others did before"""
    if hist == "none":
        return
    if hist == "explicit":
        for k, a in zip(names, alts):
            o = make(**always, **{k: a})
            attempt(lambda: o.fit(*[x.copy() for x in args]) if hasattr(o, "fit") and key not in ("cell", "mm", "s") else o.psi(np.ones(2)))
        return
    o = make(**always)
    if "changed" in hist and hist != "changed":
        if hasattr(o, "fit"):
            attempt(lambda: o.fit(*[x.copy() for x in args]))
    change(o)
    if hasattr(o, "set_params"):
        deep = {k: v for k, v in o.get_params().items() if "__" in k}
        for k, v in deep.items():
            if isinstance(v, int) and not isinstance(v, bool) and "random" not in k:
                attempt(lambda: o.set_params(**{k: max(1, v // 3)}))
        for k, a in zip(names, alts):
            attempt(lambda: o.set_params(**{k: a}))
    else:
        for k, a in zip(names, alts):
            attempt(lambda: setattr(o, k, a))
    if hist == "fitted":
        o = make(**always)
        if hasattr(o, "fit"):
            attempt(lambda: o.fit(*[x.copy() for x in args]))


def run(c, rng):
    warnings.simplefilter("ignore")
    cls, give = c["cls"], c["give"]
    names = [d[0] for d in c["doc"]]
    isobj = cls in OBJ or cls in RHO
    alw = {}
    if cls in OBJ:
        make, key, alw = OBJ[cls]
        args, new = dataset(key, rng, c["data"] if FAM[key] not in ("uni", "power") else {"rows15": "out20", "cells": "ties"}.get(c["data"], c["data"]), c["n"], c["p"])
    elif cls in RHO:
        make, key, args = RHO[cls], cls, ()
        grid = rng.normal(size=40) * 2
    else:
        s = int(rng.integers(1 << 30))

    def side(explicit):
        # values are made here so that a fresh process has fresh nested objects
        docs, alts = [val(d[1]) for d in c["doc"]], [val(d[2]) for d in c["doc"]]
        kw = {names[give - 1]: alts[give - 1]} if give else {}
        if explicit:
            kw = {**dict(zip(names, docs)), **kw}
        if not isobj:
            f = fun(cls, c["data"], c["n"], np.random.default_rng(s), c["hist"])
            if not explicit and c["hist"] == "explicit":
                for k, a in zip(names, alts):
                    attempt(lambda: f(**{k: a}))
            if not explicit and c["hist"] == "fitted":
                attempt(lambda: f())
            plt.close("all")
            return [], [], attempt(lambda: f(**kw))
        if not explicit:
            history(c["hist"], make, key, names, alts, alw, args, rng)
        o = make(**alw, **kw)
        attrs = [(hasattr(o, k), sarg(getattr(o, k, None))) for k in names]
        if cls in RHO:
            return [a[0] for a in attrs], [a[1] for a in attrs], attempt(lambda: nums(o.rho(grid), o.psi(grid)))

        def go():
            o.fit(*[x.copy() for x in args])
            out = []
            for op in READS[FAM[key]]:
                out += read(key, o, op, new)
            return out
        return [a[0] for a in attrs], [a[1] for a in attrs], attempt(go)

    rows = []
    for explicit in (False, True):
        st, x = forked(lambda: side(explicit))
        if st != "ok":
            raise RuntimeError(f"{st} {x}")
        rows.append(x)
    fin = lambda v: [x if x == x else 0.125 for x in (v or [])]
    big = cls in ("fastbig", "fastmid")
    return {"had": [a and b and not big for a, b in zip(rows[0][0], rows[1][0])] or [False] * len(names), "def": rows[0][1] or [""] * len(names), "exp": rows[1][1] or [""] * len(names),
            "st0": rows[0][2][0], "st1": rows[1][2][0], "v0": fin(rows[0][2][1]), "v1": fin(rows[1][2][1])}


def cost(c):
    return {"cell": 20, "fast": 6, "fastbig": 10, "fastmid": 10, "s": 40, "mm": 40, "lts": 6, "cellplot": 20}.get(c["cls"], 1)
