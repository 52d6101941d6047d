import numpy as np, pandas as pd
import matplotlib.pyplot as plt
from kit import *
from robpy.univariate import adjusted_boxplot

FIELDS = ("median", "q1", "q3", "lower_whisker", "upper_whisker")


def box(b):
    return dict(zip(("med", "q1", "q3", "lw", "uw"), (S(getattr(b, f)) for f in FIELDS)))


def artists(ax, p, horizontal):
    """statistics read back from the lines of p boxes (box, whiskers, caps, median, fliers per box)"""
    L = ax.get_lines()
    if len(L) != 7 * p:
        raise Malformed(f"{len(L)} lines for {p} boxes")
    out = []
    val = lambda l: np.asarray(l.get_xdata() if horizontal else l.get_ydata(), float)
    for j in range(p):
        bx, w1, w2, c1, c2, md, fl = (val(l) for l in L[7 * j:7 * j + 7])
        out.append({"q1": float(bx.min()), "q3": float(bx.max()), "lw": float(c1[0]), "uw": float(c2[0]), "med": float(md[0]), "fliers": sorted(map(float, fl)),
                    "w": [float(w1.min()), float(w2.max())]})
    return out


def run(c, rng):
    n, p = c["n"], c["p"]
    form = c["form"]
    if form in ("vector", "series"):
        p = 1
    X = np.column_stack([uni(rng, c["kind"], n) for _ in range(p)])
    if c["mirror"] == "T":
        X = -X
    names = {"str": [f"col{p - j}" for j in range(p)], "num": [10 * j + 3 for j in range(p)], "dup": ["d"] * p, "none": list(range(p))}[c["lab"]]
    labels = [str(j) for j in range(p)]
    arg = X.copy()
    if form == "vector":
        arg = X[:, 0].copy()
    elif form == "series":
        nm = None if c["lab"] == "none" else names[0]
        arg = pd.Series(X[:, 0].copy(), name=nm, index=rng.permutation(n)); labels = [str(nm)]
    elif form == "frame":
        arg = pd.DataFrame(X.copy(), columns=names, index=rng.permutation(n)); labels = [str(s) for s in names]
    kw = {"vert": False} if c["kw"] == "vert" else {}
    rec = {"X": clean(X), "p": p, "named": labels != ["None"], "plot": c["plot"] != "no", "labels": labels}
    plt.close("all")
    onax, draw, lab = True, [], []
    if c["plot"] == "no":
        bs = adjusted_boxplot(arg, plot=False)
        if plt.get_fignums():
            draw = [0]
    else:
        other = plt.figure().subplots() if c["plot"] == "new" else None
        ax = plt.figure().subplots() if c["plot"] == "ax" else None
        decoy = plt.figure().subplots() if c["plot"] == "ax" else None
        before = set(plt.get_fignums())
        bs = adjusted_boxplot(arg, ax=ax, **kw) if ax is not None else adjusted_boxplot(arg, **kw)
        if ax is None:
            new = [k for k in plt.get_fignums() if k not in before]
            onax = len(new) == 1 and len(other.get_lines()) == 0
            ax = plt.figure(new[0]).axes[0] if new else other
        else:
            onax = len(decoy.get_lines()) == 0 and len(ax.get_lines()) > 0 and set(plt.get_fignums()) == before
        draw = artists(ax, p, bool(kw))
        lab = [t.get_text() for t in (ax.get_yticklabels() if kw else ax.get_xticklabels())]
    bs = list(bs)
    # every column on its own, as a vector
    one = [adjusted_boxplot(X[:, j].copy(), plot=False)[0] for j in range(p)]
    same = len(bs) == p and all(np.allclose(getattr(a, f), getattr(b, f), rtol=1e-12, atol=0) for a, b in zip(one, bs) for f in FIELDS)
    rec["out"] = {"box": [box(b) for b in bs], "draw": draw, "labels": lab, "onax": bool(onax), "same": bool(same)}
    return rec
