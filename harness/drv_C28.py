import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection, LineCollection, QuadMesh
from matplotlib.lines import AxLine
import hashlib
from scipy.stats import norm
from apikit import *
CASE_TIMEOUT = 60
MK = {"fast": lambda: FastMCD(n_initial_subsets=60, random_seed=1), "det": DetMCD, "ogk": OGK, "wrap": WrappingCovariance, "kendall": KendallTau, "cell": lambda: CellMCD(alpha=0.6)}


def dig(v, depth=0):
    if isinstance(v, np.ndarray):
        return str(v.dtype) + str(v.shape) + hashlib.sha256(np.ascontiguousarray(v).tobytes() if v.dtype != object else str(v.tolist()).encode()).hexdigest()[:16]
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return dig(v.to_numpy()) + str(list(v.index)) + (str(list(v.columns)) if v.ndim == 2 else str(v.name))
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(dig(x, depth + 1) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(f"{k}:{dig(x, depth + 1)}" for k, x in sorted(v.items(), key=str)) + "}"
    if type(v).__name__ == "Logger" or callable(v):
        return "f"
    if hasattr(v, "__dict__") and depth < 3:
        return type(v).__name__ + "(" + ",".join(f"{k}={dig(x, depth + 1)}" for k, x in sorted(vars(v).items())) + ")"
    return repr(v)


def state(o, keys=None):
    return {k: dig(v) for k, v in vars(o).items() if keys is None or k in keys}


def f(a):
    return [float(v) for v in np.ma.filled(np.ma.asarray(a, dtype=float), np.nan).reshape(-1)]


def lines(ax):
    """(horizontal, vertical) line positions, number of identity lines, other curves"""
    h, v, diag, curves = [], [], 0, []
    for l in ax.get_lines():
        if isinstance(l, AxLine):
            x1, y1 = l.get_xy1()
            s = l.get_slope()
            if s is None:
                x2, y2 = l.get_xy2()
                s = (y2 - y1) / (x2 - x1)
            diag += int(abs(x1 - y1) <= 1e-9 * (1 + abs(x1)) and abs(s - 1) < 1e-12)
            continue
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        if len(x) > 2:
            curves.append(np.column_stack([x, y]))
        elif y[0] == y[-1] and x[0] != x[-1]:
            h.append(float(y[0]))
        elif x[0] == x[-1]:
            v.append(float(x[0]))
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for s in c.get_segments():
                (h if s[0][1] == s[-1][1] else v).append(float(s[0][1] if s[0][1] == s[-1][1] else s[0][0]))
    return h, v, diag, curves


def points(ax):
    pc = [c for c in ax.collections if isinstance(c, PathCollection)]
    if len(pc) != 1:
        raise Malformed(f"{len(pc)} point clouds")
    off = np.ma.filled(np.ma.asarray(pc[0].get_offsets(), dtype=float), np.nan)
    return f(off[:, 0]), f(off[:, 1])


def axes_of(figs):
    ax = [a for k in figs for a in plt.figure(k).axes]
    if len(ax) < 1:
        raise Malformed("no axes drawn")
    return ax


def run(c, rng):
    plt.close("all")
    w = c["what"]
    want = [float(v) for v in rng.integers(3, 7, 2)]
    fs = tuple(want)
    rec = {"wantfig": want, "fig": []}
    pre = set(plt.get_fignums())

    def shown():
        new = [k for k in plt.get_fignums() if k not in pre]
        ax = axes_of(new)
        rec["fig"] = [float(v) for v in ax[0].figure.get_size_inches()]
        return ax[0]

    if w == "dd":
        n = max(c["n"], 6 * c["p"] + 10, 40) if c["cls"] == "cell" else max(c["n"], 4 * c["p"])
        X = multi(rng, "normal" if c["cls"] == "cell" else c["kind"], n, c["p"])
        o = MK[c["cls"]]().fit(X)
        q = 0.975 if c["def"] else c["q"] / 1000
        b, db = state(o), dig(X)
        fig = o.distance_distance_plot(figsize=fs) if c["def"] else o.distance_distance_plot(chi2_percentile=q, figsize=fs)
        ax = shown()
        if fig is not ax.figure:
            raise Malformed("the figure returned is not the one drawn")
        rec["xs"], rec["ys"] = points(ax)
        h, v, d, _ = lines(ax)
        rec.update(n=n, p=c["p"], q=q, x=clean(X), mu=Vv(o.location_), cov=M(o.covariance_), maha=Vv(getattr(o, "_mahalanobis_distances", rec["xs"])), rob=Vv(getattr(o, "_robust_distances", rec["ys"])), hl=h, vl=v, diag=d,
                   before=b, after=state(o, b), databefore=db, dataafter=dig(X))
    elif w == "regmap":
        n, p = c["n"], c["p"]
        X = multi(rng, c["kind"], n, p)
        lev = []
        if c["data"] == "train" and c["rd"]:
            lev = list(range(n // 6))
            X[lev] += 80
        y = X @ rng.normal(size=p) + 1 + rng.normal(size=n)
        y[n // 6: n // 6 + 3] += 25
        o = MAKE[c["cls"]](1).fit(X, y)
        if c["data"] == "new":
            X = multi(rng, c["kind"], n, p)
            y = X @ rng.normal(size=p) + rng.normal(size=n)
        a = (pd.DataFrame(X, index=rng.permutation(n)), pd.Series(y)) if c["cont"] == "frame" else (X, y)
        pred = Vv(np.asarray(o.predict(X)).ravel())
        b, db = state(o), dig(list(a))
        thr, q = c["thr"] / 10, c["q"] / 1000
        r = o.outlier_map(*a, robust_scaling=c["rs"], robust_distance=c["rd"], vertical_outlier_threshold=thr, leverage_threshold_percentile=q, figsize=fs, return_data=True)
        ax = shown()
        rec["xs"], rec["ys"] = points(ax)
        h, v, d, _ = lines(ax)
        rec.update(n=n, p=p, q=q, thr=thr, x=clean(X), y=clean(y), pred=pred, hl=h, vl=v, lev=[i + 1 for i in lev], before=b, after=state(o, b), databefore=db, dataafter=dig(list(a)),
                   ret={"res": Vv(np.asarray(r[0]).ravel()), "std": Vv(np.asarray(r[1]).ravel()), "dist": Vv(r[2]), "thr": S(r[3]), "lev": S(r[4])})
    elif w == "pcamap":
        n, p = c["n"], c["p"]
        X = multi(rng, c["kind"], n, p)
        o = MAKE[c["cls"]](1).fit(X)
        Z = multi(rng, c["kind"], n, p) if c["data"] == "new" else X
        a = pd.DataFrame(Z, index=rng.permutation(n)) if c["cont"] == "frame" else Z
        b, db = state(o), dig(a)
        r = o.plot_outlier_map(a, figsize=fs, return_distances=True)
        ax = shown()
        rec["xs"], rec["ys"] = points(ax)
        h, v, d, _ = lines(ax)
        u = UnivariateMCD().fit(np.asarray(rec["ys"]) ** (2 / 3))
        rec.update(n=n, x=clean(Z), mu=Vv(o.location_), P=M(o.components_), ev=Vv(o.explained_variance_), hl=h, vl=v, before=b, after=state(o, b), databefore=db, dataafter=dig(a),
                   odcut=float((u.location + u.scale * norm.ppf(0.975)) ** 1.5), ret={"sd": Vv(r[0]), "od": Vv(r[1]), "sc": S(r[2]), "oc": S(r[3])})
    elif w == "cell":
        n, p = c["n"], c["p"]
        X = multi(rng, c["kind"], n, p)
        if c["nan"]:
            X[rng.uniform(size=X.shape) < 0.04] = np.nan
        q = c["q"] / 1000
        o = CellMCD(alpha=0.6, quantile=q).fit(X)
        j, k = [int(v) for v in rng.permutation(p)[:2]]
        X0 = X.copy()
        res, pred, mu, cov = o.residuals.copy(), o.predictions.copy(), o.location_.copy(), o.covariance_.copy()
        if c["later"]:
            X[:, j] = X[::-1, j] * 3 + 1
        kw = {"plottype": c["plot"]} if c["plot"] != "indexplot" or rng.integers(2) else {}
        if c["plot"] == "bivariate":
            kw.update(second_variable=k, second_variable_name="other")
        names = [f"r{i + 1}" for i in range(n)]
        if c["names"]:
            kw["row_names"] = names
        if c["aq"]:
            kw["annotation_quantile"] = c["aq"] / 1000
        b, db = state(o), dig([X, names])
        o.cell_MCD_plot(j, "v", figsize=fs, **kw)
        ax = shown()
        rec["xs"], rec["ys"] = points(ax)
        h, v, d, curves = lines(ax)
        th = lambda x: (lambda t: {"loc": float(t.location), "scale": float(t.scale)})(OneStepWrapping().fit(x[~np.isnan(x)]))
        x2 = X0[:, k]
        xx = {"indexplot": np.arange(3.0), "residuals_vs_variable": X0[:, j], "bivariate": X0[:, j]}.get(c["plot"], pred[:, j])
        yy = {"variable_vs_predictions": X0[:, j], "bivariate": x2}.get(c["plot"], res[:, j])
        rec.update(n=n, q=q, aq=c["aq"] / 1000 if c["aq"] else q, X1=clean(X0[:, j]), X2=clean(x2), pred=clean(pred[:, j]), res=clean(res[:, j]), mu=Vv(mu[[j, k]]), cov=M(cov[np.ix_([j, k], [j, k])]),
                   tx=th(xx), ty=th(yy), hl=h, vl=v, diag=d, ell=[] if len(curves) != 1 else clean(curves[0]),
                   texts=[{"i": names.index(t.get_text()) + 1 if t.get_text() in names else 0, "x": float(t.get_position()[0]), "y": float(t.get_position()[1])} for t in ax.texts],
                   before=b, after=state(o, b), databefore=db, dataafter=dig([X, names]))
    else:
        n, p = c["n"], c["p"]
        rl, cl = [f"r{i * 7 % n}" for i in range(n)], [f"c{p - j}" for j in range(p)]
        if len(set(rl)) < n:
            rl = [f"r{n - i}" for i in range(n)]
        df = pd.DataFrame(multi(rng, c["kind"], n, p), index=rl, columns=cl)
        if c["nan"]:
            df = df.mask(rng.uniform(size=df.shape) < 0.08)
        o = DDC().fit(df)
        kw = {}
        Z, std = df, o.standardized_residuals_
        if c["data"] == "new":
            Z = pd.DataFrame(multi(rng, c["kind"], n, p), index=rl, columns=cl)
            std = o.predict(Z)[1]
            kw["standardized_residuals"] = std
        rows, cols = list(range(n)), list(range(p))
        if c["rz"] == "tuple":
            a, e = sorted(int(v) for v in rng.permutation(n + 1)[:2])
            kw["row_zoom"] = (a, e)
            rows = rows[a:e]
        elif c["rz"] != "no":
            rows = [int(v) for v in rng.permutation(n)[: int(rng.integers(1, n))]] if c["rz"] == "index" else rows[::-1][: n // 2]
            kw["row_zoom"] = pd.Index([rl[i] for i in rows])
        if c["cz"] == "tuple":
            a, e = sorted(int(v) for v in rng.permutation(p + 1)[:2])
            kw["col_zoom"] = (a, e)
            cols = cols[a:e]
        elif c["cz"] == "index":
            cols = [int(v) for v in rng.permutation(p)[: int(rng.integers(1, p))]]
            kw["col_zoom"] = pd.Index([cl[i] for i in cols])
        if c["clip"]:
            kw["vmax_clip"] = float(c["clip"])
        b, db = state(o), dig([Z, std])
        x0, s0 = Z.to_numpy().copy(), np.asarray(std, dtype=float).copy()
        ax = o.cellmap(Z, annotate=c["ann"], figsize=fs, **kw)
        shown()
        mesh = [m for m in ax.collections if isinstance(m, QuadMesh)]
        if len(mesh) != 1:
            raise Malformed("no cell map")
        mesh = mesh[0]
        sh = np.asarray(mesh.get_coordinates()).shape
        arr = np.ma.filled(np.ma.asarray(mesh.get_array(), dtype=float), np.nan).reshape(sh[0] - 1, sh[1] - 1)
        hexof = lambda v: matplotlib.colors.to_hex(mesh.cmap(mesh.norm(v)))
        v1 = float(mesh.get_clim()[1])
        rec.update(ends=[hexof(-v1), hexof(0.0), hexof(v1)], colours=[["" if np.isnan(t) else hexof(t) for t in row] for row in arr])
        tick = lambda axis: [{"i": int(np.floor(t.get_position()[k] + 0.5 + 1e-9)), "label": t.get_text()} for k, t in ((0 if axis == "x" else 1, t) for t in (ax.get_xticklabels() if axis == "x" else ax.get_yticklabels())) if t.get_text() != ""]
        rec.update(n=n, x=clean(x0), std=clean(s0), rows=[i + 1 for i in rows], cols=[j + 1 for j in cols], cells=clean(arr), clim=f(mesh.get_clim()),
                   clip=float(c["clip"]) if c["clip"] else float(np.sqrt(scipy_chi(0.999))), notes=[{"i": int(np.floor(t.get_position()[1])) + 1, "j": int(np.floor(t.get_position()[0])) + 1, "v": float(t.get_text())} for t in ax.texts],
                   xt=[dict(t, i=t["i"]) for t in tick("x")], yt=tick("y"), rowlabels=rl, collabels=cl, before=b, after=state(o, b), databefore=db, dataafter=dig([Z, std]))
    plt.close("all")
    return rec


def scipy_chi(q):
    from scipy.stats import chi2
    return float(chi2.ppf(q, 1))
