import copy
import numpy as np, pandas as pd
from kit import *
from robpy.preprocessing import RobustScaler, RobustPowerTransformer
from robpy.univariate import UnivariateMCD, Qn, Tau, HuberOneStepM, OneStepWrapping

EST = {"default": None, "mcd60": lambda: UnivariateMCD(alpha=0.6), "qn": Qn, "tau": Tau, "huber": HuberOneStepM, "wrap": OneStepWrapping}


def pdata(rng, kind, n):
    z = rng.normal(size=n)
    if kind == "lognormal":
        return np.exp(z)
    if kind == "shiftnormal":
        return 10 + z * rng.uniform(0.5, 2)
    if kind == "gamma":
        return rng.gamma(2, 3, n) + 1e-3
    if kind == "weibull":
        return rng.weibull(1.3, n) + 1e-3
    if kind == "uniform":
        return rng.uniform(0.5, 4, n)
    if kind == "power7":
        return np.maximum(5 + z, 0.2) ** (1 / rng.uniform(5, 8))
    if kind == "powerneg":
        return np.maximum(5 + z, 0.5) ** (-1 / rng.uniform(2, 6))
    if kind == "posint":
        return rng.integers(1, 40, n).astype(float)
    if kind == "posintdtype":
        return rng.integers(1, 200, n)
    if kind == "out10":
        x = np.exp(0.5 * z)
        x[: n // 10] = 50 + rng.normal(size=n // 10)
        return x[rng.permutation(n)]
    if kind == "normal":
        return z * rng.choice([0.01, 1, 50])
    if kind == "heavy3":
        return rng.standard_t(3, n)
    if kind == "leftskew":
        return -np.exp(z) * 3
    if kind == "gammac":
        return rng.gamma(2, 1, n) - 2
    if kind == "intdtype":
        return rng.integers(-30, 60, n)
    if kind == "unif":
        return rng.uniform(-1, 1, n)
    if kind == "out10n":
        z[: n // 10] = rng.choice([-1, 1]) * 30 + rng.normal(size=n // 10)
        return z[rng.permutation(n)]
    if kind == "centred":
        x = np.round(z * 4)
        return x if np.median(np.abs(x - np.median(x))) > 0 else z
    raise KeyError(kind)


def scaler(c, rng):
    n, p = c["n"], 1 if c["form"] == "vector" else c["p"]
    X = np.column_stack([uni(rng, c["kind"], n) for _ in range(p)])
    nan = c["nan"] == "T" and n > 8
    if nan:
        X = X.astype(float)
        X[rng.uniform(size=X.shape) < 0.1] = np.nan
    Z = np.vstack([X[:3], X[:2] * 1.7 + 1])
    form = {"array": lambda A: A, "frame": lambda A: pd.DataFrame(A, index=rng.permutation(len(A)), columns=[f"q{j}" for j in range(A.shape[1])]), "vector": lambda A: A[:, 0]}[c["form"]]
    mk = EST[c["est"]]
    kw = dict(with_centering=c["cent"] == "T", with_scaling=c["scal"] == "T")
    m = RobustScaler(**kw) if mk is None else RobustScaler(mk(), **kw)
    if c["hist"] == "refit":
        m.fit(rng.normal(size=(9, p + 1)) * 7 + 3)
    m.fit(form(X), ignore_nan=nan)
    loc, sc = [], []
    for j in range(p):
        e = (mk or UnivariateMCD)()
        x = X[:, j]
        e.fit(x[~np.isnan(x)] if nan else x)
        loc.append(float(e.location) if kw["with_centering"] else 0.0)
        sc.append(float(e.scale) if kw["with_scaling"] else 1.0)
    t = m.transform(form(Z))
    inv = m.inverse_transform(form(np.asarray(t).reshape(5, p)))
    return {"what": "scaler", "est": c["est"], "nan": nan, "scal": kw["with_scaling"], "X": clean(X), "Z": clean(Z), "loc": loc, "scale": sc,
            "out": {"loc": Vv(m.locations_, p), "scale": Vv(m.scales_, p), "t": M(t, 5, p), "inv": M(inv, 5, p)}}


def params(t, std):
    g = lambda a, d: S(getattr(t, a)) if std else d
    bc = t.method_ == "boxcox"
    return {"lam": S(t.lambda_rew), "lpre": 0.0 if bc else g("location_pre", 0.0), "spre": g("scale_pre", 1.0), "lpost": g("location_post", 0.0), "spost": g("scale_post", 1.0)}


def eff(t, x):
    """the method actually applied, found by behaviour"""
    if t.method != "auto":
        return t.method
    return getattr(t, "method_", "unknown")


def power(c, rng):
    n, std, q, steps, method = c["n"], c["std"] == "T", c["q"] / 1000, c["steps"], c["method"]
    x = pdata(rng, c["kind"], n)
    mk = lambda meth=method, st=steps: RobustPowerTransformer(method=meth, standardize=std, quantile=q, nsteps=st)
    t = mk()
    if c["hist"] == "refit":
        t.fit(pdata(rng, "lognormal" if rng.uniform() < 0.5 else "normal" if method != "boxcox" else "gamma", 40))
    t.fit(x)
    m = eff(t, x)
    out = {"method": m, **params(t, std)}
    xf = x.astype(float)
    lo, hi = xf.min(), xf.max()
    z = np.sort(np.concatenate([rng.uniform(lo, hi, 12), np.quantile(xf, [0.1, 0.5, 0.9]), [hi + 0.2 * (hi - lo)], [lo * 0.8 if lo > 0 else lo - 0.2 * (hi - lo)]]))
    tx, tz = t.transform(x), t.transform(z)
    inv = t.inverse_transform(tz)
    far = t.inverse_transform(np.concatenate([tz, [tz[0] - 3 * np.ptp(tz) - 1, tz[-1] + 3 * np.ptp(tz) + 1]]))
    out.update(tx=Vv(tx, n), tz=Vv(tz, len(z)), inv=Vv(inv, len(z)), far=Vv(far, len(z) + 2))
    out["spec"] = []
    for lam in (0.0, 2.0, 1.0):  # the transform that a fitted power of exactly this value gives
        v = copy.deepcopy(t)
        v.lambda_rew, v.standardize = lam, False
        u = np.linspace(0.1, 3, 7) if m == "boxcox" else np.linspace(-2.5, 2.5, 11)
        e = v.transform(u)
        out["spec"].append({"lam": lam, "x": Vv(u), "t": Vv(e, len(u)), "inv": Vv(v.inverse_transform(e), len(u))})
    out["lprev"] = 0.0
    likok = True
    if q < 1:
        likok = steps > 1
        if likok:
            out["lprev"] = S(mk(m, steps - 1).fit(x).lambda_rew)
    out["plam"] = S(mk(m).fit(x[rng.permutation(n)]).lambda_rew)
    r = mk().fit(x[: max(10, n // 2)] if method != "auto" else (pdata(rng, "normal", 30)))
    if method == "auto":
        r.fit(np.exp(rng.normal(size=30)))
    r.fit(x)
    out["rlam"], out["rmethod"] = S(r.lambda_rew), eff(r, x)
    isint = x.dtype.kind == "i"
    if isint:
        d = mk().fit(xf)
        out["dlam"], out["dtx"] = S(d.lambda_rew), Vv(d.transform(xf), n)
    out["rect"], has = [], False
    f = getattr(t, f"_transf_{m}_rectified", None)  # the transform behind the first weights (not part of the public interface: judged only if it is there)
    if f is not None:
        xs = np.sort((xf - out["lpre"]) / out["spre"])
        try:
            for lam in rng.choice([-3.0, -1.5, -0.5, 0.0, 0.4, 0.8, 1.0, 1.3, 2.0, 2.6, 3.5], 4, replace=False):
                v = np.asarray(f(xs, float(lam))[0], float)
                if v.shape == (n,):
                    out["rect"].append({"lam": float(lam), "t": clean(v)})
        except TypeError:
            out["rect"] = []
        has = out["rect"] != []
    positive = bool(xf.min() > 0)
    if method == "auto" and positive:
        b, y = mk("boxcox").fit(x), mk("yeojohnson").fit(x)
        pb, py = params(b, std), params(y, std)
        out.update(blam=pb["lam"], bspre=pb["spre"], ylam=py["lam"], yloc=py["lpre"], yscale=py["spre"])
    return {"what": "power", "method": method, "ml": m, "std": std, "q": q, "hasrect": has, "weighted": q < 1, "likok": likok, "isint": isint, "positive": positive, "x": clean(x), "z": clean(z), "out": out}


def bad(c, rng):
    n, std = c["n"], c["std"] == "T"
    x = rng.lognormal(size=n) + 0.1
    b = x.copy()
    b[2] = {"zero": 0.0, "negative": -1.0, "integer": 0.0}[c["which"]]
    if c["which"] == "integer":
        b = np.round(b * 5).astype(int)
        b[2] = -3
    if c["method"] == "name":
        f = lambda: RobustPowerTransformer(method="box-cox", standardize=std).fit(x)
    elif c["method"] == "boxcox":
        f = lambda: RobustPowerTransformer(method="boxcox", standardize=std).fit(b)
    else:
        t = RobustPowerTransformer(method="boxcox", standardize=std).fit(x)
        f = lambda: t.transform(b)
    return {"what": "bad", "out": {"exc": attempt(f)[0]}}


def run(c, rng):
    return {"scaler": scaler, "power": power, "bad": bad}[c["what"]](c, rng)
