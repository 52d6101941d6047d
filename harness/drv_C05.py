import numpy as np
from kit import *
from robpy.univariate import Qn


def run(c, rng):
    if c["src"] == "x":
        x = np.array(c["x"], dtype=float)
        if c["perm"]:
            x = x[rng.permutation(len(x))] * 0.7 - 1
    else:
        x = uni(rng, c["kind"], c["n"])
    rec = {"x": clean(x), "cc": c["cc"] == "T", "fc": c["fc"] == "T", "loc": c["loc"]}
    try:
        kw = {} if c["loc"] == "median" else {"location_func": np.mean}
        m = Qn(consistency_correction=rec["cc"], finite_correction=rec["fc"], **kw).fit(x)
    except Exception as e:  # noqa
        return {**rec, "st": "raised", "exc": type(e).__name__}
    rec["out"] = {"scale": S(m.scale), "loc": S(m.location)}
    return rec
