from mcdkit import *


def run(c, rng):
    p = c["p"]
    n = max(c["n"], 3 * p)
    X = multi(rng, c["kind"], n, p)
    alpha, at, a = alpha_arg(c["at"], c["a"], n)
    m = make(c, alpha, n, p, starts=30).fit(X)
    return {"est": c["est"], "X": clean(X), "n": n, "p": p, "at": at, "a": a, "cc": c["cc"] == "T", "rw": c["rw"] == "T", "out": outputs(m, n, p)}
