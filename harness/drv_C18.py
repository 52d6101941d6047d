from covkit import *


def run(c, rng):
    p, est, op = c["p"], c["est"], c["op"]
    n = size(est, c["n"], p)
    X = multi(rng, c["kind"], n, p)
    if op == "far":
        X = np.round(X * 2.0**20) / 2.0**20
    A, v, rows = np.eye(p), np.zeros(p), np.arange(n)
    if op in ("shift", "all"):
        v = rng.normal(size=p) * 10.0 ** rng.integers(0, 3, p)
    if op == "far":  # an exact translation, far from zero
        v = 2.0**21 * rng.integers(-8, 9, p)
    if op in ("scale", "all"):
        A = np.diag(rng.choice([-1, 1], p) * 10.0 ** rng.uniform(-2, 2, p)) @ A
    if op == "units":
        A = np.eye(p) * 2.0 ** float(rng.choice([-20, -17, -13, -10, 10, 13]))  # exact in floating point
    if op in ("cols", "all"):
        A = A[rng.permutation(p)]
    if op == "affine":
        A = rng.normal(size=(p, p)) + 2 * np.eye(p)
        v = rng.normal(size=p) * 5
    if op == "rows":
        rows = rng.permutation(n)
    X2 = X[rows] @ A.T + v
    m1, m2 = COV[est](3).fit(X), COV[est](3).fit(X2)
    tie = False
    if est.startswith("fast") and op != "units":
        want = A @ m1.covariance_ @ A.T
        d = np.sqrt(np.diag(want))
        # an elemental start has p+1 points at the same distance: which of them stay can hang on rounding
        tie = bool(np.abs((m2.covariance_ - want) / np.outer(d, d)).max() > 1e-6) and not steady(est, X, X2)
    off = 0
    if est == "cell" and op in ("cols", "all"):
        # the weights are updated column after column, so the order of the columns can decide a borderline cell
        off = int((np.asarray(m1.W)[rows] @ (np.abs(A) > 0).T.astype(int) != np.asarray(m2.W)).sum())
        tie = 0 < off
    return {"off": off, "n": n, "tie": tie, "A": clean(A), "v": clean(v), "p": p, "cell": est == "cell",
            "out": {"loc1": Vv(m1.location_, p), "cov1": M(m1.covariance_, p, p), "loc2": Vv(m2.location_, p), "cov2": M(m2.covariance_, p, p)}}
