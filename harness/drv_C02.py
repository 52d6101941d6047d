from mcdkit import *


def cost(c):
    return c["n"] * (30 if c["full"] == "T" else 1)


def run(c, rng):
    p = c["p"]
    n = c["n"] if c["full"] == "T" else max(c["n"], 3 * p)
    X = multi(rng, c["kind"], n, p)
    alpha, at, a = alpha_arg(c["at"], c["a"], n)
    m = make(c, alpha, n, p, starts=500 if c["full"] == "T" else 40).fit(X)
    chain = []
    if c["est"] == "fast" and c["full"] == "F" and n <= 60 and c["part"] <= 1:  # the same starts, more and more of them carried on
        for k in (1, 2, 3, 5, 8, 12, 20, 40):
            r = make({**c, "nbest": k, "ics": 1}, alpha, n, p, starts=40).fit(X)
            chain.append(S(r.best_subset.determinant) if hasattr(r, "best_subset") else 0.0)
    return {"est": c["est"], "chain": chain, "X": clean(X), "n": n, "p": p, "at": at, "a": a, "full": c["full"] == "T", "six": n <= 45, "out": outputs(m, n, p)}
