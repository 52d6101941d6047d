import hashlib, signal
from apikit import *
from robpy.utils.outlyingness import stahel_donoho
CASE_TIMEOUT = 100


class SD:
    def __init__(self, random_seed=None, n_points=2, n_dir=30):
        self.a = dict(random_seed=random_seed, n_points=n_points, n_dir=n_dir)

    def fit(self, X):
        self.val = stahel_donoho(X, **self.a)
        return self


def make(est, seed):
    """an estimator with the seed, or without one"""
    return {"fast": lambda: FastMCD(n_initial_subsets=30, random_seed=seed), "fastfew": lambda: FastMCD(alpha=0.8, n_initial_subsets=2, n_best_subsets=1, n_initial_c_steps=1, random_seed=seed), "fastpart": lambda: FastMCD(alpha=0.6, n_initial_subsets=20, n_partitions=2, reweighting=False, random_seed=seed),
            "lts": lambda: FastLTSRegression(n_initial_subsets=20, random_state=seed), "ltsraw": lambda: FastLTSRegression(n_initial_subsets=20, reweighting=False, random_state=seed),
            "s": lambda: SRegression(n_initial_subsets=20, random_state=seed), "mm": lambda: MMRegression(initial_estimator=SRegression(n_initial_subsets=20, random_state=seed)),
            "robpca": lambda: ROBPCA(random_seed=seed), "robpca2": lambda: ROBPCA(n_components=2, random_seed=seed), "sd": lambda: SD(seed), "sd3": lambda: SD(seed, n_points=3)}[est]()


REGS = {"lts", "ltsraw", "s", "mm"}


def result(est, o):
    if est.startswith("sd"):
        return nums(o.val)
    if est.startswith("fast"):
        return nums(o.location_, o.covariance_)
    if est in REGS:
        m = o.model
        return nums(o.scale) + (nums(m.coef_, m.intercept_) if hasattr(m, "coef_") else nums(m.params))
    return nums(o.location_, o.components_, o.explained_variance_)


def gstate():
    s = np.random.get_state()
    return hashlib.sha256(s[1].tobytes() + repr((s[2], s[3], s[4])).encode()).hexdigest()[:16]


def fit(o, est, d):
    return o.fit(d[0], d[1]) if est in REGS else o.fit(d[0])


def session(c, rng):
    data = []
    for d in range(2):
        X = multi(rng, ["heavy", "cluster30"][d], c["n"] + 30 * d, c["p"])
        if c["kind"] == "grid":  # elemental subsets are often singular
            X = rng.integers(-2, 3, size=X.shape) * 1.0
            while np.linalg.matrix_rank(X - X[0]) < c["p"]:
                X = rng.integers(-2, 3, size=X.shape) * 1.0
        data.append((X, X @ np.ones(c["p"]) + rng.standard_t(2, size=len(X))))

    def answer(o, est, d):
        """the numbers of a fit; subsets of grid data can lie on a line, and then raising is the answer"""
        try:
            return result(est, fit(o, est, d))
        except np.linalg.LinAlgError:
            if c["kind"] != "grid":
                raise
            return [-1.0]

    def history():
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(CASE_TIMEOUT)
        objs, ev = {}, []
        for e in c["s"]:
            cf = c["conf"][e["k"] - 1]
            if e["op"] == "perturb":
                {"seed0": lambda: np.random.seed(0), "seed9": lambda: np.random.seed(9), "draw": lambda: np.random.rand(1), "draw3": lambda: np.random.rand(3), "normal": lambda: np.random.normal(size=1)}[e["how"]]()
                ev.append({"op": "perturb"})
            elif e["op"] == "unseeded":
                if cf["est"] in REGS:
                    continue
                answer(make(cf["est"], None), cf["est"], data[e["d"] - 1])
                ev.append({"op": "unseeded"})
            else:
                o = make(cf["est"], cf["seed"])
                if e["how"] == "same":
                    o = objs.setdefault(e["k"], o)
                g0 = gstate()
                val = answer(o, cf["est"], data[e["d"] - 1])
                ev.append({"op": "seeded", "slot": 2 * e["k"] + e["d"] - 2, "val": val, "g0": g0, "g1": gstate()})
        return ev

    def fresh(slot):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(CASE_TIMEOUT)
        np.random.seed(1000 + slot)
        cf = c["conf"][(slot + 1) // 2 - 1]
        return answer(make(cf["est"], cf["seed"]), cf["est"], data[(slot - 1) % 2])

    st, ev = forked(history)
    if st != "ok":
        raise RuntimeError(f"{st} {ev}")
    tab = [[] for _ in range(6)]
    for s in {e["slot"] for e in ev if e["op"] == "seeded"}:
        st, v = forked(lambda: fresh(s))
        if st != "ok":
            raise RuntimeError(f"fresh {st} {v}")
        tab[s - 1] = v
    return {"what": "session", "ev": ev, "fresh": tab}


def objective(o, est, X):
    if est == "fast":
        return S(o.best_subset.determinant)
    return S(o.scale)


def starts(c, rng):
    """one search that must meet every elemental start, and searches from a single start each"""
    est = c["est"]
    n, p = (8, 2) if est == "fast" else (8, 1)
    X = multi(rng, c["kind"], n, p)
    y = X[:, 0] + rng.standard_t(1.5, size=n)

    def go(m, seed):
        if est == "fast":
            o = FastMCD(alpha=0.75, n_initial_subsets=m, n_best_subsets=m, random_seed=seed, correct_covariance=False, reweighting=False).fit(X)
        elif est == "lts":
            o = FastLTSRegression(alpha=0.6, n_initial_subsets=m, n_best_models=m, reweighting=False, random_state=seed).fit(X, y, verbosity=50)
        else:
            o = SRegression(n_initial_subsets=m, n_best_subsets=m, random_state=seed, max_scale_iterations=100).fit(X, y)
        return objective(o, est, X)
    return {"what": "starts", "est": est, "many": go(1000 if est == "fast" else 600, c["seed"]), "single": [v for st, v in (attempt(lambda: go(1, 77000 + 13 * i)) for i in range(12)) if st == "ok"]}


def fresh_unseeded(c, rng):
    est = c["est"]
    X = multi(rng, "heavy", 40, 5)

    def go(seed):
        if est == "fast":
            o = FastMCD(alpha=0.5, n_initial_subsets=1, n_best_subsets=1, reweighting=False, random_seed=seed)
        elif est == "sd":
            o = SD(seed, n_dir=1)
        else:
            o = ROBPCA(n_components=2, alpha=0.5, random_seed=seed)
        return tuple(np.round(result("fast" if est == "fast" else "sd" if est == "sd" else "robpca", o.fit(X)), 9))
    rich = len({go(s) for s in range(12)})
    return {"what": "fresh", "rich": rich >= 9, "distinct": len({go(None) for _ in range(12)})}


def run(c, rng):
    if c["what"] == "session":
        return session(c, rng)
    if c["what"] == "sdall":
        X = rng.normal(size=(c["n"], c["p"]))
        return {"what": "sdall", "X": clean(X), "got": Vv(stahel_donoho(X, n_dir=700, random_seed=c["seed"]), c["n"])}
    return starts(c, rng) if c["what"] == "starts" else fresh_unseeded(c, rng)


def cost(c):
    return 10 if c["what"] == "starts" else 1
