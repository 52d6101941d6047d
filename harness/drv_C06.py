import numpy as np
from kit import *
from robpy.univariate import Tau, OneStepM, HuberOneStepM, CellwiseOneStepM, OneStepWrapping, UnivariateMCD
from robpy.utils.rho import Huber, TukeyBisquare
from robpy.preprocessing.utils import wrapping_transformation

RHO = {"huber": lambda c: Huber(b=c), "bisq": lambda c: TukeyBisquare(c=c)}


def run(c, rng):
    w = c["what"]
    if w == "rho":
        k = c["c"] / (100 if c["c"] >= 100 else 10)
        x = np.concatenate([np.arange(-4 * 50, 4 * 50 + 1) / 40 * k, [k, -k, np.nextafter(k, 9e9), np.nextafter(k, 0), 0.0, 1e-9, 1e6 * k],
                            rng.normal(size=40) * k * (1 if c["unit"] == 1 else c["unit"] / 3)])
        x = np.sort(x)
        rec = {"what": w, "fn": c["fn"], "c": float(k), "x": clean(x)}
        f = RHO[c["fn"]](k)
        rec["out"] = {"rho": Vv(f.rho(x), len(x)), "psi": Vv(f.psi(x), len(x)), "rhoneg": Vv(f.rho(-x), len(x)), "psineg": Vv(f.psi(-x), len(x))}
        return rec
    if w == "wrapping":
        n, p = c["n"], c["p"]
        X = np.column_stack([uni(rng, c["kind"] if j % 2 == 0 else "normal", n) for j in range(p)])
        if c["rep"] == 2 and p > 1:
            X[:, p - 1] = 3.25  # a column without spread
        b, cc = (1.5, 4.0) if c["def"] == "T" else (c["b"] / 10, c["c"] / 10)
        rec = {"what": w, "x": clean(X.T), "b": float(b), "c": float(cc), "rescale": c["rescale"] == "T"}
        kw = {} if c["def"] == "T" else {"b": b, "c": cc}
        if p == 1 and c["rep"] == 1:
            out = np.asarray(wrapping_transformation(X[:, 0], rescale=rec["rescale"], **kw)).reshape(-1, 1)
        else:
            out = wrapping_transformation(X, rescale=rec["rescale"], **kw)
        rec["out"] = M(np.asarray(out).T, p, n)
        return rec
    x = uni(rng, c["kind"], c["n"])
    rec = {"what": w, "x": clean(x), "lr": "none", "lc": 1.0, "sr": "none", "sc": 1.0, "delta": 1.0, "c1": 1.0, "c2": 1.0, "cc": True}
    if w == "tau":
        rec.update(c1=c["c1"] / 10, c2=c["c2"] / 10, cc=c["cc"] == "T")
        m = Tau(c1=rec["c1"], c2=rec["c2"], consistency_correction=rec["cc"]) if c["rep"] < 3 else Tau()
        if c["rep"] == 3:
            rec.update(c1=4.5, c2=3.0, cc=True)
    elif w == "onestep":
        rec.update(lr=c["lr"], lc=c["lc"] / 10, sr=c["sr"], sc=c["sc"] / 10, delta=c["delta"] / 1000)
        m = OneStepM(loc_rho=RHO[rec["lr"]](rec["lc"]), scale_rho=RHO[rec["sr"]](rec["sc"]), delta=rec["delta"])
    elif w == "huber1":
        rec.update(lr="huber", lc=1.5, sr="huber", sc=1.5, delta=0.7784655)
        m = HuberOneStepM()
    elif w == "cell1":
        rec.update(lr="bisq", lc=3.0, sr="huber", sc=2.5, delta=0.845)
        m = CellwiseOneStepM()
    else:
        m = OneStepWrapping()
    try:
        m.fit(x)
    except Exception as e:  # noqa
        return {**rec, "st": "raised", "exc": type(e).__name__}
    rec["out"] = {"loc": S(m.location), "scale": S(m.scale), "mcdloc": 0.0, "mcdscale": 1.0}
    if w == "wrap1":
        u = UnivariateMCD().fit(x)
        rec["out"].update(mcdloc=S(u.location), mcdscale=S(u.scale))
    return rec
