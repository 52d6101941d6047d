from covkit import *
import matplotlib.pyplot as plt


# no stored precision matrix, data said to be centred
LAZY = {"fastlazy": lambda: FastMCD(n_initial_subsets=20, random_seed=2, store_precision=False, assume_centered=True), "ogklazy": lambda: OGK(store_precision=False, assume_centered=True),
        "wraplazy": lambda: WrappingCovariance(store_precision=False, assume_centered=True)}


def run(c, rng):
    p = c["p"]
    n = size(c["est"], c["n"], p)
    X = multi(rng, c["kind"], n, p)
    Z = X[:5] + rng.normal(size=(5, p)) * X.std(0)
    rec = {"X": clean(X), "Z": clean(Z), "p": p}
    m = (LAZY.get(c["est"]) or COV[c["est"]])().fit(X)
    prec = m.get_precision()
    out = {"loc": Vv(m.location_, p), "cov": M(m.covariance, p, p), "prec": M(prec, p, p), "nf": I(m.n_features_in_), "maha": Vv(m.mahalanobis(Z), 5)}
    fig = m.distance_distance_plot()
    off = np.asarray(fig.axes[0].collections[0].get_offsets())
    plt.close(fig)
    out["md"], out["rd"] = Vv(off[:, 0], n), Vv(off[:, 1], n)
    try:
        out["cor"], out["hascor"] = M(m.correlation, p, p), True
    except AttributeError:
        out["cor"], out["hascor"] = [], False
    f = (LAZY.get(c["est"]) or COV[c["est"]])().fit(frame(rng, X, c["lab"]))
    out["floc"], out["fcov"] = Vv(f.location_, p), M(f.covariance_, p, p)
    rec["out"] = out
    return rec
