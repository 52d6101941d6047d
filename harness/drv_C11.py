from regkit import *

RHO = {"default": (None, None), "t25": (TukeyBisquare(c=2.5), 0.4), "t3": (TukeyBisquare(c=3.0), 0.5), "t2": (TukeyBisquare(c=2.0), 0.3),
       "h1": (Huber(b=1.0), 0.3), "h2": (Huber(b=2.0), 0.4)}
MRHO = {"default": None, "t4685": TukeyBisquare(c=4.685), "t25": TukeyBisquare(c=2.5), "h1345": Huber(b=1.345), "h3": Huber(b=3.0)}


def describe(r, dflt):
    if r is None:
        return {"fam": "bisq", "c": dflt}
    return {"fam": "bisq", "c": r.c} if isinstance(r, TukeyBisquare) else {"fam": "huber", "c": r.b}


def run(c, rng):
    p = c["p"]
    n = max(c["n"], 4 * p + 6)
    X = xdata(rng, c["x"], n, p)
    b, b0 = beta(rng, p)
    y = X @ b + b0 + rng.normal(size=n)
    X, y, _ = contaminate(rng, c["cont"], X, y, 0.15)
    if c["cont"] == "mirror":  # residuals whose changes cancel
        X = X - X.mean(0)
        e = y - X @ b - b0 + rng.standard_t(2, size=n)
        X, y = np.vstack([X, -X]), np.concatenate([X @ b + e, -X @ b - e])
        n = 2 * n
    y = y * {"one": 1.0, "big": 1e3}[c["unit"]]
    icpt = c["icpt"] == "T"
    rho, bb = RHO[c["rho"]]
    kw = dict(n_initial_subsets=60, random_state=c["seed"], fit_intercept=icpt)
    if rho is not None:
        kw.update(rho=rho, b=bb)
    s = SRegression(**kw)
    rec = {"X": clean(X), "y": clean(y), "n": n, "p": p, "est": c["est"], "icpt": icpt, "srho": describe(rho, 1.547), "b": bb if bb else 0.1994,
           "mrho": describe(MRHO[c["mrho"]], 3.44), "yu": {"one": 1.0, "big": 1e3}[c["unit"]]}
    s.fit(X, y)
    i0, co = coef(s, p, X)
    out = {"s0": i0, "s": co, "sscale": S(s.scale), "m0": 0.0, "m": [], "mscale": 0.0, "sfit": Vv(s.predict(X), n), "mfit": []}
    if c["est"] in ("mm", "mmtraj"):
        init = SRegression(**kw)
        if c["seed"] == 3:
            init = FastLTSRegression(n_initial_subsets=60)
            s2 = FastLTSRegression(n_initial_subsets=60)
            fit(s2, X, y)
            out.update(s0=coef(s2, p, X)[0], s=coef(s2, p, X)[1], sscale=S(s2.scale), sfit=Vv(s2.predict(X), n))
            rec["est"] = "mmlts" if c["est"] == "mm" else "mmtraj"
        mk = {} if MRHO[c["mrho"]] is None else {"rho": MRHO[c["mrho"]]}
        if c["est"] == "mmtraj":
            mk.update(max_iterations=c["its"], epsilon=float(c["eps"]))
            rec.update(its=c["its"], eps=float(c["eps"]))
        else:
            mk.update(max_iterations=2000)
        m = MMRegression(initial_estimator=init, **mk)
        m.fit(X, y)
        rec["niter"] = int(getattr(m, "n_iter", -1))
        j0, cm = coef(m, p, X)
        out.update(m0=j0, m=cm, mscale=S(m.scale), mfit=Vv(m.predict(X), n))
    rec["chain"] = []
    if c["est"] == "s" and n <= 60:  # the same starts, more and more of them carried on
        for k in (1, 2, 3, 5, 10, 30):
            q = SRegression(**{**kw, "n_initial_subsets": 30, "n_initial_i_steps": 1}, n_best_subsets=k)
            fit(q, X, y)
            rec["chain"].append(S(q.scale))
    rec["out"] = out
    return rec
