import copy, pickle, signal
from sklearn.base import BaseEstimator, clone
from apikit import *
CASE_TIMEOUT = 100
S_ = lambda n, s: SRegression(n_initial_subsets=n, random_state=s)
# two constructor configurations per class; both name the same parameters
CFG = {
    "fast": (FastMCD, lambda: [dict(alpha=0.5, n_initial_subsets=20, reweighting=True, random_seed=1), dict(alpha=0.8, n_initial_subsets=12, reweighting=False, random_seed=4)]),
    "det": (DetMCD, lambda: [dict(alpha=0.5, reweighting=True, correct_covariance=True), dict(alpha=0.75, reweighting=False, correct_covariance=False)]),
    "ogk": (OGK, lambda: [dict(n_iterations=2, reweighting=False, scale_estimator=tau_scale), dict(n_iterations=1, reweighting=True, scale_estimator=np.std)]),
    "wrap": (WrappingCovariance, lambda: [dict(store_precision=True, b=1.5, c=4.0), dict(store_precision=False, b=1.3, c=4.0)]),
    "kendall": (KendallTau, lambda: [dict(), dict()]),
    "cell": (CellMCD, lambda: [dict(alpha=0.75, quantile=0.99), dict(alpha=0.6, quantile=0.95)]),
    "lts": (FastLTSRegression, lambda: [dict(alpha=0.5, n_initial_subsets=20, reweighting=True, random_state=1), dict(alpha=0.8, n_initial_subsets=10, reweighting=False, random_state=5)]),
    "s": (SRegression, lambda: [dict(n_initial_subsets=20, fit_intercept=True, random_state=1), dict(n_initial_subsets=10, fit_intercept=False, random_state=3)]),
    "mm": (MMRegression, lambda: [dict(initial_estimator=S_(20, 1), max_iterations=500), dict(initial_estimator=S_(10, 3), max_iterations=0)]),
    "robpca": (ROBPCA, lambda: [dict(n_components=None, final_MCD_step=True, random_seed=1), dict(n_components=2, final_MCD_step=False, random_seed=2)]),
    "loc": (PCALocantore, lambda: [dict(n_components=None, k_min_var_explained=0.95), dict(n_components=1, k_min_var_explained=0.5)]),
    "scaler": (RobustScaler, lambda: [dict(scale_estimator=Qn(), with_centering=True), dict(scale_estimator=Tau(), with_centering=False)]),
    "power": (RobustPowerTransformer, lambda: [dict(method="yeojohnson", standardize=True, lambda_range=(-4.0, 6.0), quantile=0.99), dict(method="auto", standardize=False, lambda_range=(0.0, 2.0), quantile=0.9)]),
    "clean": (DataCleaner, lambda: [dict(max_missing_frac_cols=0.5, clean_na_first="automatic"), dict(max_missing_frac_cols=0.1, clean_na_first="columns")]),
    "umcd": (UnivariateMCD, lambda: [dict(alpha=None, consistency_correction=True), dict(alpha=0.8, consistency_correction=False)]),
    "tau": (Tau, lambda: [dict(c1=4.5), dict(c1=3.0, consistency_correction=False)]), "qn": (Qn, lambda: [dict(), dict()]), "huber": (HuberOneStepM, lambda: [dict(), dict()]), "cellm": (CellwiseOneStepM, lambda: [dict(), dict()]), "wrap1": (OneStepWrapping, lambda: [dict(), dict()]),
    "ddc": (DDC, lambda: [dict(chi2_quantile=0.99), dict(chi2_quantile=0.9, scale_estimator=UnivariateMCD())]),
}
FAMILY = {"power": "yj", "clean": "clean"}
EXTRA = {"fastlazy": lambda: FastMCD(n_initial_subsets=40, random_seed=1, store_precision=False), "ogklazy": lambda: OGK(store_precision=False)}


def pstr(o):
    if isinstance(o, BaseEstimator):
        return "; ".join(f"{k}={simple(v)}" for k, v in sorted(o.get_params(deep=False).items()) if k != "verbosity")
    return params(o)


def make(cls, k):
    ctor, kws = CFG[cls]
    return ctor(**kws()[k - 1])


def setp(cls, o, k, nested):
    kw = CFG[cls][1]()[k - 1]
    if cls == "mm" and nested:
        i = kw.pop("initial_estimator")
        kw.update(initial_estimator__n_initial_subsets=i.n_initial_subsets, initial_estimator__random_state=i.random_state)
    return o.set_params(**kw)


def life(c, rng):
    cls = c["cls"]
    fk = FAMILY.get(cls, cls)
    data = [dataset(fk, np.random.default_rng(rng.integers(1 << 62)), ["normal", "skew" if FAM[fk] in ("uni", "power") else "corr"][d], c["n"] + 5 * d, c["p"]) for d in range(2)]
    ops = READS[FAM[fk]]

    def get(o, op, e):
        if cls == "clean" and op == "est":
            op = "transform"
        return read(fk, o, op, data[e][1])

    def fittr(x):
        if cls == "clean":
            return nums([hash_str(v) for v in x.columns], [hash_str(v) for v in x.index], x)
        return nums(x)

    def history():
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(CASE_TIMEOUT)
        slot = [None, None, None]
        slot[0] = make(cls, 1)
        st = [[1, 0, 0], [0, 0, 0], [0, 0, 0]]
        plain = not isinstance(slot[0], BaseEstimator)
        ev = []
        for e in c["s"]:
            op, i, j = e["op"], e["o"] - 1, e["j"] - 1
            if st[i][0] == 0 and op != "new" or (plain and op in ("set", "clone")) or (op == "fittr" and not hasattr(slot[i], "fit_transform")):
                continue
            out = {"op": op, "o": e["o"], "j": e["j"], "d": e["d"], "self": True}
            if op == "new":
                slot[i] = make(cls, e["d"])
                st[i] = [e["d"], 0, 0]
            elif op == "fit":
                out["self"] = slot[i].fit(*[x.copy() for x in data[e["d"] - 1][0]]) is slot[i]
                st[i] = [st[i][0], st[i][0], e["d"]]
            elif op == "fittr":
                st[i] = [st[i][0], st[i][0], e["d"]]
                res, val = attempt(lambda: fittr(slot[i].fit_transform(*[x.copy() for x in data[e["d"] - 1][0]])))
                out.update(fc=st[i][1], fd=st[i][2], read="fittr", e=e["d"], res=res, val=val or [])
            elif op == "set":
                out["self"] = setp(cls, slot[i], e["d"], e["r"]) is slot[i]
                st[i][0] = e["d"]
            elif op == "clone":
                slot[j] = clone(slot[i])
                st[j] = [st[i][0], 0, 0]
            elif op in ("deep", "pick"):
                slot[j] = copy.deepcopy(slot[i]) if op == "deep" else pickle.loads(pickle.dumps(slot[i]))
                st[j] = list(st[i])
            else:
                rop = ops[e["r"] % len(ops)]
                if st[i][1] != 0 and st[i][0] != st[i][1]:
                    continue
                res, val = attempt(lambda: get(slot[i], rop, e["e"] - 1))
                out.update(fc=st[i][1], fd=st[i][2], read=rop, e=e["e"], res=res, val=val or [])
            out["ps"] = [pstr(o) if o is not None else "" for o in slot]
            ev.append(out)
        return ev

    def fresh(k, d, reads):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(CASE_TIMEOUT)
        o = make(cls, k).fit(*[x.copy() for x in data[d][0]])
        return [attempt(lambda: fittr(o.transform(*[x.copy() for x in data[d][0]])) if op == "fittr" else get(o, op, e)) for op, e in reads]

    st, ev = forked(history)
    if st != "ok":
        raise RuntimeError(f"{st} {ev}")
    need = {}
    for k, e in enumerate(ev):
        if e["op"] in ("read", "fittr"):
            e.update(wres="", want=[])
            if e["fc"]:
                need.setdefault((e["fc"], e["fd"] - 1), []).append(k)
    for (k, d), ks in need.items():
        st, v = forked(lambda: fresh(k, d, [(ev[q]["read"], ev[q]["e"] - 1) for q in ks]))
        if st != "ok":
            raise RuntimeError(f"fresh {st} {v}")
        for q, (res, val) in zip(ks, v):
            ev[q].update(wres=res, want=val or [])
    return {"ev": ev, "pstr": [pstr(make(cls, k)) for k in (1, 2)]}


def run(c, rng):
    if c["kind"] == "life":
        return life(c, rng)
    cls, p, m = c["cls"], c["p"], c["m"]
    n = max(c["n"], 5 * p + 4)
    X = multi(rng, c["data"], n, p)
    T = multi(rng, "normal", m, p) if m > p + 2 else rng.normal(size=(m, p))
    fr = (lambda A: pd.DataFrame(A, columns=[f"v{j}" for j in range(A.shape[1])])) if c["cont"] == "frame" else (lambda A: A)
    if c["kind"] == "cov":
        o = (EXTRA[cls] if cls in EXTRA else lambda: COV[cls](1))().fit(fr(X))
        A = rng.normal(size=(p, p))
        comp = A @ A.T + np.eye(p)
        ev = np.linalg.eigvalsh(o.covariance_)
        return {"cov": M(o.covariance_), "loc": Vv(o.location_), "prec": M(o.get_precision()), "comp": M(comp), "T": M(T), "cond": bool(ev[0] > 1e-7 * ev[-1] and ev[0] > 0),
                "score": S(o.score(T.copy())), "err": S(o.error_norm(comp.copy(), norm=c["norm"], scaling=c["scaling"] == "T", squared=c["squared"] == "T"))}
    if c["kind"] == "reg":
        b = rng.normal(size=p)
        y = X @ b + 2 + rng.normal(size=n)
        y[: n // 6] += 30
        o = MAKE[cls](1).fit(fr(X), y)
        yn = T @ b + 2 + rng.normal(size=m)
        w = {"none": None, "ones": np.ones(m), "rand": rng.uniform(0.1, 3, m)}[c["w"]]
        kw = {} if w is None else {"sample_weight": w.copy()}
        return {"y": Vv(yn), "pred": Vv(np.asarray(o.predict(T.copy())).reshape(-1)), "wts": Vv(np.ones(m) if w is None else w), "score": S(o.score(T.copy(), yn.copy(), **kw))}
    o = MAKE[cls](1).fit(fr(X))
    k = o.components_.shape[1]
    Z = rng.normal(size=(m, k)) * 3
    names = [str(x) for x in o.get_feature_names_out()]
    tr = np.asarray(o.transform(T.copy()))
    o2 = MAKE[cls](1).set_output(transform="pandas").fit(fr(X))
    f = o2.transform(T.copy())
    return {"comp": M(o.components_), "loc": Vv(o.location_), "Z": M(Z), "inv": M(o.inverse_transform(Z.copy())), "T": M(T), "tr": M(tr), "back": M(o.inverse_transform(tr.copy())), "proj": M(np.asarray(o.project(T.copy()))),
            "names": names, "pre": type(o).__name__.lower(), "fcols": [str(x) for x in f.columns], "fout": M(f.to_numpy())}


def cost(c):
    return 6 if c["cls"] in ("cell", "ddc") else 1
