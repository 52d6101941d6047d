import csv, hashlib, os, tempfile
import numpy as np, pandas as pd
from kit import *
import robpy.datasets as D

CASE_TIMEOUT = 60
NA = {"", "NA", "nan", "NaN", "None", "null", "N/A"}
HERE = os.path.dirname(D.__file__)


def cell(v):
    if v is None or (isinstance(v, str) and v in NA):
        return "nan"
    try:
        return repr(float(v))
    except (TypeError, ValueError):
        return str(v)


def sha(rows, names):
    h = hashlib.sha256(("|".join(map(str, names)) + "\n").encode())
    for r in rows:
        h.update(("|".join(cell(v) for v in r) + "\n").encode())
    return h.hexdigest()[:16]


_FILES = {}


def filehash(name):
    if name not in _FILES:
        rows = list(csv.reader(open(os.path.join(HERE, "data", name + ".csv"))))
        _FILES[name] = sha(rows[1:], rows[0])
    return _FILES[name]


def text(t):
    return hashlib.sha256(str(t).encode()).hexdigest()[:16]


def content(b):
    """what a returned Bunch holds"""
    try:
        d = b["data"]
        rows = d.values if isinstance(d, pd.DataFrame) else np.asarray(d)
        return sha(rows.tolist(), list(b["feature_names"]))
    except KeyError:
        return "gone"


def mutate(b, how):
    d = b.get("data")
    if how == "names":
        b["feature_names"].append("extra"); b["feature_names"][0] = "x"
    elif how == "catnames":
        b.get("categorical_features", []).clear()
    elif how == "del":
        b.pop("data", None); b["DESCR"] = ""
    elif d is None:
        pass
    elif how == "cols" and isinstance(d, pd.DataFrame):
        d.columns = [f"z{i}" for i in range(d.shape[1])]
        d.drop(columns=d.columns[0], inplace=True)
    elif how in ("cell", "cols"):
        if isinstance(d, pd.DataFrame):
            d.isetitem(0, d.iloc[:, 0].astype(object)); d.iloc[0, 0] = -12345.0; d.iloc[-1, -1] = np.nan
        else:
            d[0, 0] = -12345.0; d[-1, -1] = np.nan
    elif how == "sort":
        if isinstance(d, pd.DataFrame):
            d.sort_values(d.columns[-1], inplace=True, ascending=False)
        else:
            d[:] = d[::-1].copy()
    elif how == "fill":
        if isinstance(d, pd.DataFrame):
            d.drop(index=d.index[:5], inplace=True)
        else:
            d[...] = 0


def run(c, rng):
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="c26_")
    held, ev = [], []
    try:
        for op in c["s"]:
            e = {"op": op["op"]}
            if op["op"] == "cd":
                os.chdir(tmp if op["to"] == "tmp" else "/")
            elif op["op"] == "mut":
                if not held:
                    continue
                k = op["k"] % len(held)
                mutate(held[k], op["how"])
                e["k"] = k + 1
            else:
                f = getattr(D, "load_" + op["name"])
                b = f() if op["frame"] == "d" else f(as_frame=op["frame"] == "T")
                held.append(b)
                d = b.data
                fr = isinstance(d, pd.DataFrame)
                rows = (d.values if fr else np.asarray(d)).tolist()
                nums, num_cols = [], True
                cat = list(b.get("categorical_features", []))
                for j, nm in enumerate(b.feature_names):
                    if nm in cat or nm == "Verdict":
                        continue
                    if fr and d.dtypes.iloc[j].kind not in "if":
                        num_cols = False
                for r in rows:
                    for v in r:
                        try:
                            v = float(v)
                            if v == v:
                                nums.append(v)
                        except (TypeError, ValueError):
                            pass
                if not fr and op["name"] != "topgear" and d.dtype.kind not in "if":
                    num_cols = False
                e.update(name=op["name"], want=op["frame"] == "T", isframe=fr, rows=len(rows), cols=len(rows[0]), names=[str(s) for s in b.feature_names],
                         namesok=(not fr) or list(d.columns) == list(b.feature_names), ncat=len(cat), catok=set(cat) <= set(b.feature_names),
                         catexact=fr and [str(x) for x, t in zip(d.columns, d.dtypes) if t.kind not in "if"] == cat,
                         descr=text(b.DESCR), descrfile=text(open(os.path.join(HERE, "descr", op["name"] + ".rst")).read()), num=len(nums), tot=float(np.sum(nums)), numeric=num_cols,
                         meta=isinstance(b.DESCR, str) and len(b.DESCR) > 50 and b.filename == op["name"] + ".csv" and os.path.exists(os.path.join(str(b.data_folder), b.filename)), file=filehash(op["name"]))
            e["held"] = [content(b) for b in held]
            ev.append(e)
    finally:
        os.chdir(cwd)
        os.rmdir(tmp)
    return {"ev": ev}
