import numpy as np, pandas as pd
from kit import *
from robpy.preprocessing import DataCleaner

KINDS = ["normal", "normal", "normal", "d1", "d2", "d3", "d4", "d6", "half", "tiny", "rownum", "rowoff", "str", "mixed", "allnan", "infs", "int", "bool", "objnum", "onegap"]


def column(rng, kind, n, miss, train=None):
    x = rng.normal(size=n)
    if kind[0] == "d" and kind[1:].isdigit():
        x = rng.choice(np.array([1.5, -2, 0, 7, 3.25, 9]), size=n)
        k = int(kind[1:])
        x = np.array([1.5, -2, 0, 7, 3.25, 9])[:k][rng.integers(0, k, n)]
    elif kind == "half":
        x[: n // 2 + 1] = 4.0
    elif kind == "tiny":
        x = x * rng.choice([1e-13, 0.2])
    elif kind == "rownum":
        x = np.arange(n) * 1.0
    elif kind == "rowoff":
        x = np.arange(n) * 1.0 + 1
    elif kind in ("str", "mixed"):
        v = np.array([f"s{i % 4}" for i in range(n)], dtype=object) if kind == "str" else np.array([float(i) for i in range(n)], dtype=object)
        v[rng.integers(0, n)] = "abc"
        return v, np.full(n, np.nan)
    elif kind == "int":
        v = rng.integers(-20, 20, n)
        return v, v.astype(float)
    elif kind == "bool":
        v = rng.uniform(size=n) < 0.5
        return v, v.astype(float)
    x = x.astype(float)
    if kind == "allnan":
        x[:] = np.nan
    if kind == "infs":
        x[rng.uniform(size=n) < 0.3] = rng.choice([np.inf, -np.inf])
        if rng.uniform() < 0.5:  # few finite values besides infinities of both signs
            x = np.array([1.0, 2.0, np.inf, -np.inf])[rng.integers(0, 4, n)]
    if kind == "onegap":
        x[rng.integers(0, n)] = np.nan
    if kind not in ("rownum", "rowoff") or rng.uniform() < 0.3:
        x[rng.uniform(size=n) < miss / 100 * rng.uniform(0, 1.7)] = np.nan
    if kind == "objnum":
        v = x.astype(object)
        v[np.isnan(x)] = None
        return v, x
    return x, x


def make(rng, kinds, n, miss, lab):
    raw, num = zip(*[column(rng, k, n, miss) for k in kinds])
    rows_bad = rng.uniform(size=n) < 0.1
    num = np.column_stack(num).astype(float)
    cols = {}
    for j, (k, v) in enumerate(zip(kinds, raw)):
        if k in ("normal", "infs", "onegap", "d4"):
            v = np.where(rows_bad, np.nan, v)
            num[rows_bad, j] = np.nan
        cols[j] = v
    ix = {"range": np.arange(n), "perm": rng.permutation(n) + 3, "dup": rng.integers(0, max(2, n // 2), n), "str": np.array([f"r{i}" for i in range(n)]),
          "date": pd.date_range("2021-03-01", periods=n)}[lab]
    names = [f"c{(j * 7) % 97}" for j in range(len(kinds))]
    df = pd.DataFrame({names[j]: v for j, v in cols.items()}, index=ix)
    return df, num, names


def run(c, rng):
    n, p = c["n"], c["p"]
    kinds = [KINDS[i] for i in rng.integers(0, len(KINDS), p)]
    F, Fn, names = make(rng, kinds, n if c["same"] == "T" else max(4, n + 3), c["miss"], c["lab"])
    X, Xn = (F, Fn) if c["same"] == "T" else make(rng, kinds, n, c["miss"], c["lab"])[:2]
    ms = {"zero": 0.0, "tiny": 1e-12, "one": 0.3}[c["ms"]]
    m = DataCleaner(max_missing_frac_cols=c["mc"] / 1000, max_missing_frac_rows=c["mr"] / 1000, min_unique_values=c["mu"], min_abs_scale=ms, clean_na_first=c["order"], min_n_rows=c["minrows"])
    rec = {"n": n, "p": p, "F": clean(Fn), "X": clean(Xn), "tp": ["str" if k in ("str", "mixed") else "num" for k in kinds], "ms": ms, "mc": c["mc"], "mr": c["mr"], "mu": c["mu"],
           "order": c["order"], "minrows": c["minrows"], "index": [str(v) for v in X.index]}
    if c["hist"] == "refit":
        m.fit(make(rng, kinds, n + 2, 50, c["lab"])[0])
    m.fit(F)
    if c["hist"] == "twice":
        attempt(lambda: m.transform(X))
    if c["hist"] == "other":
        attempt(lambda: m.transform(make(rng, kinds, n + 2, 70, c["lab"])[0]))
    if c["hist"] == "wide":  # a frame for which columns come first
        attempt(lambda: m.transform(make(rng, kinds, max(3, p // 5), 50, c["lab"])[0]))
    try:
        Y = m.transform(X)
    except ValueError as e:
        if "rows" not in str(e):
            raise
        rec["out"] = {"raised": True}
        return rec
    pos = {nm: j + 1 for j, nm in enumerate(names)}
    d = m.dropped_columns
    P = lambda k: [pos[x] for x in d[k]]
    rec["out"] = {"raised": False, "cols": [pos[x] for x in Y.columns], "index": [str(v) for v in Y.index], "val": [[float("nan") if v is None else float(v) for v in row] for row in Y.to_numpy(dtype=object)],
                  "dnn": P("non_numeric_cols"), "ddc": P("cols_discrete"), "dbs": P("cols_bad_scale"), "drn": P("cols_rownumbers"), "dmc": P("cols_missings"),
                  "drows": [str(v) for v in m.dropped_rows["rows_missings"]]}
    return rec
