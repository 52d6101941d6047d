from regkit import *

MAKE = {"lts": lambda s: FastLTSRegression(n_initial_subsets=60, random_state=s), "ltsraw": lambda s: FastLTSRegression(alpha=0.7, n_initial_subsets=60, reweighting=False, random_state=s),
        "lts1": lambda s: FastLTSRegression(alpha=0.6, n_initial_subsets=15, n_initial_c_steps=1, n_best_models=4, reweighting=False, random_state=s),
        "s": lambda s: SRegression(n_initial_subsets=60, random_state=s), "s0": lambda s: SRegression(n_initial_subsets=60, fit_intercept=False, random_state=s),
        "mm": lambda s: MMRegression(SRegression(n_initial_subsets=60, random_state=s)), "mmlts": lambda s: MMRegression(FastLTSRegression(n_initial_subsets=60, random_state=s))}


def run(c, rng):
    p = c["p"]
    n = max(c["n"], 4 * p + 6)
    est = c["est"]
    X = xdata(rng, c["x"], n, p)
    b, b0 = beta(rng, p)
    icpt = est != "s0"
    if not icpt:
        b0 = 0.0
    rec = {"op": c["op"], "est": est, "icpt": icpt, "n": n, "p": p}
    Z = rng.normal(size=(6, p)) * 3
    if c["op"] == "exact":
        y = X @ b + b0
        if c["x"] == "ints":
            X = np.round(X); b = np.round(b); b0 = round(b0); y = X @ b + b0
        X, y, ix = contaminate(rng, c["cont"], X, y, 0.25)
        m = MAKE[est](c["seed"])
        if not isinstance(m, FastLTSRegression):
            (m if isinstance(m, SRegression) else m.initial_estimator).n_initial_subsets = 250
        else:
            m.n_initial_subsets = 250
        fit(m, X, y)
        rec["out"] = {"pred": Vv(m.predict(Z), 6), "want": Vv(Z @ b + b0, 6), "size": float(np.abs(y).max() + 1)}
        return rec
    y = X @ b + b0 + rng.normal(size=n)
    X, y, _ = contaminate(rng, c["cont"], X, y, 0.15)
    if c["op"] == "predict":
        m = MAKE[est](c["seed"])
        fit(m, X, y)
        i0, co = affine(m, p)
        Zs = np.vstack([Z, np.ones((2, p)), np.zeros((1, p)), Z[:1]])
        batch = Vv(m.predict(Zs), len(Zs))
        single = [S(m.predict(z.reshape(1, -1))) for z in Zs]
        const = Vv(m.predict(np.full((4, p), 2.0)), 4)
        rec["out"] = {"Z": clean(Zs), "b0": i0, "b": co, "batch": batch, "single": single, "const": const, "two": [[2.0] * p] * 4,
                      "frame": Vv(m.predict(__import__("pandas").DataFrame(Zs)), len(Zs)), "rev": Vv(m.predict(Zs[::-1]), len(Zs))}
        return rec
    m1, m2 = MAKE[est](c["seed"]), MAKE[est](c["seed"])
    v, d = rng.normal(size=p), float(rng.normal() * 3)
    if not icpt:
        d = 0.0
    k, sh = np.ones(p), np.zeros(p)
    cy = 1.0
    if c["op"] == "yscale":
        cy = [-1.0, 0.5, -3.0, 10.0, 1000.0, 0.001, -0.0001][c["k"]]
        v, d = np.zeros(p), 0.0
    elif c["op"] == "xaff":
        k = rng.choice([-1, 1], p) * 10.0 ** rng.uniform(-1.5, 1.5, p)
        sh = rng.normal(size=p) * 2 if icpt else sh
        v, d = np.zeros(p), 0.0
    X2, y2 = X * k + sh, cy * y + X @ v + d
    fit(m1, X, y)
    fit(m2, X2, y2)
    rec["out"] = {"f1": Vv(m1.predict(Z), 6), "f2": Vv(m2.predict(Z * k + sh), 6), "s1": S(m1.scale), "s2": S(m2.scale), "c": cy,
                  "add": Vv(Z @ v + d, 6), "size": float(np.abs(Z @ b).max() + 10)}
    return rec
