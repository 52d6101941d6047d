import numpy as np
from kit import *
from robpy.univariate import Tau, OneStepM, HuberOneStepM, CellwiseOneStepM, OneStepWrapping, UnivariateMCD, Qn
from robpy.utils.rho import Huber, TukeyBisquare

MAKE = {"mcd": lambda: UnivariateMCD(), "mcd75": lambda: UnivariateMCD(alpha=0.75), "mcdraw": lambda: UnivariateMCD(consistency_correction=False),
        "qn": lambda: Qn(), "tau": lambda: Tau(), "tauc": lambda: Tau(c1=3.0, c2=1.5, consistency_correction=False),
        "huber1": lambda: HuberOneStepM(), "cell1": lambda: CellwiseOneStepM(), "wrap1": lambda: OneStepWrapping(),
        "onestep": lambda: OneStepM(loc_rho=TukeyBisquare(c=2.0), scale_rho=Huber(b=2.0), delta=0.9)}
A = {"one": 1.0, "minus": -1.0, "neg3": -3.7, "p1e-8": 1e-8, "n1e-5": -1e-5, "p1e5": 1e5, "n17": -17.0, "far": 1.0}


def run(c, rng):
    x = uni(rng, c["kind"], c["n"])
    a, b = A[c["a"]], float(c["b"])
    if abs(a) < 1e-3 and b:
        b = b * abs(a)
    if c["a"] == "far" and c["kind"] != "intdtype":
        x = np.round(x * 2.0**20) / 2.0**20
    xf = x.astype(float)
    rec = {"est": c["est"], "op": c["op"], "x": clean(x), "a": a, "b": b}
    kw = {}
    if c["op"] == "affine":
        y = a * xf + b
    elif c["op"] == "perm":
        y = x[rng.permutation(len(x))]
    elif c["op"] == "reverse":
        y = x[::-1]
    else:
        k = 1 if c["op"] == "nan" else max(2, len(x))
        y = np.insert(xf, rng.integers(0, len(x) + 1, size=k), np.nan)
        kw = {"ignore_nan": True}
    mk = MAKE[c["est"]]
    base, other = mk().fit(x), mk().fit(y, **kw)
    rec["out"] = {"loc": S(base.location), "scale": S(base.scale), "loc2": S(other.location), "scale2": S(other.scale), "rawloc": 0.0, "rawvar": 1.0}
    if c["est"].startswith("mcd") or c["est"] == "wrap1":
        m = base if c["est"] != "wrap1" else UnivariateMCD().fit(x)
        rec["out"].update(rawloc=S(m.raw_location_), rawvar=S(m.raw_variance_))
    return rec
