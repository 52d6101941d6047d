from regkit import *


def factors(c, rng):
    """the module's factor functions, where there are any (the fits decide the factors in any case)"""
    import robpy.regression.lts as lts
    a, b = getattr(lts, "get_correction_factor", None), getattr(lts, "get_correction_factor_reweighting", None)
    if a is None or b is None:
        return {"there": False}
    try:
        a(p=1, n=30, alpha=0.5), b(p=1, n=30, alpha=0.5)
    except TypeError:  # other parameter names: not part of the public interface
        return {"there": False}
    al = [0.5, 0.875, 1.0] + [float(v) for v in rng.uniform(0.5, 1, 5)]
    return {"there": True, "p": c["p"], "n": c["n"], "al": al, "raw": [S(a(p=c["p"], n=c["n"], alpha=v)) for v in al], "rew": [S(b(p=c["p"], n=c["n"], alpha=v)) for v in al]}


def run(c, rng):
    if c.get("what") == "factor":
        return factors(c, rng)
    p = c["p"]
    n = max(c["n"], 2 * p + 4) if c["n"] > 7 else 7
    X = xdata(rng, c["x"], n, p)
    b, b0 = beta(rng, p)
    y = X @ b + b0 + rng.normal(size=n) * (0.5 if c["x"] != "skew" else 2.0)
    X, y, _ = contaminate(rng, c["cont"], X, y, 0.2)
    if c["unit"] == "big":
        y = y * 1e4
    alpha = c["a"] / 1000
    m = FastLTSRegression(alpha=alpha, n_initial_subsets=c["starts"], n_initial_c_steps=c["ics"], n_best_models=c["nbest"],
                          reweighting=c["rw"] == "T", random_state=c["seed"])
    kw = {}
    w = np.zeros(p + 1)
    if c["init"] == "T":
        w = np.concatenate([[b0], b]) * (1e4 if c["unit"] == "big" else 1.0) * rng.uniform(0.3, 1.5, size=p + 1)
        kw["initial_weights"] = w.copy()
    fit(m, X, y if c["seed"] % 2 else y.reshape(-1, 1), **kw)
    i0, co = coef(m, p, X)
    out = {"ix": IX(m.best_h_subset, n), "b0": i0, "b": co, "scale": S(m.scale), "fitted": Vv(m.predict(X), n)}
    if c["rw"] == "T":  # the raw fit of the same configuration
        r = FastLTSRegression(alpha=alpha, n_initial_subsets=c["starts"], n_initial_c_steps=c["ics"], n_best_models=c["nbest"],
                              reweighting=False, random_state=c["seed"])
        fit(r, X, y, **kw)
        out["rawscale"] = S(r.scale)
    else:
        out["rawscale"] = out["scale"]
    chain = []
    if c["n"] != 7 and c["init"] == "F" and c["starts"] == 40 and c["n"] <= 60:  # the same starts, more and more of them carried on
        for k in (1, 2, 3, 5, 8, 12, 20, 40):
            q = FastLTSRegression(alpha=alpha, n_initial_subsets=40, n_initial_c_steps=1, n_best_models=k, reweighting=False, random_state=c["seed"])
            fit(q, X, y)
            chain.append(S(q.scale))
    return {"chain": chain, "X": clean(X), "y": clean(y), "n": n, "p": p, "a": alpha, "rw": c["rw"] == "T", "ics": c["ics"], "full": c["n"] == 7,
            "init": c["init"] == "T", "w": {"b0": S(w[0]), "b": Vv(w[1:], p)}, "steady": c["x"] != "ints", "out": out}
