import numpy as np
from kit import *
from robpy.univariate import UnivariateMCD


def alpha_of(at, a, n):
    """(at, a) -> the actual alpha argument and the (at, a) the specification reads"""
    if at == "none":
        return None, "none", 0
    if at == "float":
        a = a if a >= 500 else 500 + 100 * a
        return a / 1000, "float", a
    # integers between n/2 and n
    lo = (n + 1) // 2
    v = lo + (a * 7919) % (n - lo + 1)
    return v, "int", v


def run(c, rng):
    if c["src"] == "x":
        x = np.array(c["x"], dtype=float)
        if c["perm"]:
            x = x[rng.permutation(len(x))] * 0.7 - 1
    else:
        x = uni(rng, c["kind"], c["n"])
    n = len(x)
    alpha, at, a = alpha_of(c["at"], c["a"], n)
    rec = {"x": clean(x), "at": at, "a": a, "cc": c["cc"] == "T"}
    try:
        m = UnivariateMCD(alpha=alpha, consistency_correction=rec["cc"]).fit(x)
    except Exception as e:  # noqa
        return {**rec, "st": "raised", "exc": type(e).__name__}
    rec["out"] = {"h": I(m.h_size), "rawloc": S(m.raw_location_), "rawvar": S(m.raw_variance_), "rawscale": S(m.raw_scale_),
                  "loc": S(m.location), "scale": S(m.scale), "var": S(m.variance_)}
    return rec
