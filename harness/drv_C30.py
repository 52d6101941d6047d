import contextlib, io, logging, signal
from apikit import *
CASE_TIMEOUT = 100
HID = {"yj": "RobustPowerTransformer", "auto": "RobustPowerTransformer", "clean": "DataCleaner", "umcd": "UnivariateMCD", "umcda": "UnivariateMCD", "mm": "S-regression"}
CTOR = {"fast": lambda v: FastMCD(n_initial_subsets=40, random_seed=1, verbosity=v), "fastraw": lambda v: FastMCD(alpha=0.75, n_initial_subsets=40, reweighting=False, random_seed=1, verbosity=v),
        "fastpart": lambda v: FastMCD(n_initial_subsets=40, n_partitions=2, random_seed=1, verbosity=v),
        "fastfew": lambda v: FastMCD(n_initial_subsets=3, n_initial_c_steps=1, n_best_subsets=1, tolerance=0.3, random_seed=1, verbosity=v),
        "det": lambda v: DetMCD(verbosity=v), "detraw": lambda v: DetMCD(alpha=0.6, reweighting=False, correct_covariance=False, verbosity=v), "ddcw": lambda v: InitialDDCW(verbosity=v),
        "cell": lambda v: CellMCD(alpha=0.75, verbosity=v), "cell9": lambda v: CellMCD(alpha=0.6, quantile=0.95, verbosity=v),
        "robpca": lambda v: ROBPCA(random_seed=1, verbosity=v), "robpca2": lambda v: ROBPCA(n_components=2, final_MCD_step=False, random_seed=1, verbosity=v), "robpca1": lambda v: ROBPCA(alpha=0.5, n_components=1, random_seed=1, verbosity=v)}
NAMES = ["FastMCD", "DetMCD", "CellMCD", "InitialDDCW", "ROBPCA", "FastLTS", "S-regression", "DataCleaner", "RobustPowerTransformer", "UnivariateMCD"]


def run(c, rng):
    cls = c["cls"]
    base = {"robpca1": "robpca", "ltsw": "lts", "fastpart": "fast"}.get(cls, cls)
    fam = FAM[base]
    n = max(c["n"], 2 * (2 * c["p"] + 4)) if cls == "fastpart" else c["n"]
    data = c["data"] if fam != "uni" and fam != "power" else {"corr": "normal", "cells": "normal"}.get(c["data"], c["data"])
    args, new = dataset(base, rng, data, n, c["p"])
    w = None
    if cls == "ltsw":
        w = rng.normal(size=np.shape(args[0])[1] + 1)

    def one(v):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(CASE_TIMEOUT)
        logging.disable(logging.NOTSET)
        err = io.StringIO()
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            for nm in NAMES:
                g = logging.getLogger(nm)
                for h in list(g.handlers):
                    g.removeHandler(h)
                if c["handlers"] == "own":
                    g.addHandler(logging.StreamHandler(err))
            root = logging.getLogger()
            for h in list(root.handlers):
                root.removeHandler(h)
            if c["handlers"] == "root":
                root.addHandler(logging.StreamHandler(err))
            np.random.seed(7)
            a = [x.copy() for x in args]

            def fit():
                if cls in HID:
                    logging.getLogger(HID[cls]).setLevel(v)
                    o = MAKE[cls](1).fit(*a)
                elif fam == "reg":
                    o = MAKE[base](1)
                    o = o.fit(*a, initial_weights=w.copy(), verbosity=v) if w is not None else o.fit(*a, verbosity=v)
                elif fam == "ddc":
                    o = MAKE[cls](1).fit(*a, verbose=v < 30)
                else:
                    o = CTOR[cls](v).fit(*a)
                if fam == "clean":
                    o.transform(new)
                out = []
                for op in READS[fam]:
                    out += [x if x == x else 0.125 for x in read(base, o, op, new)]
                return out
            res, val = attempt(fit)
            gen = int(np.random.randint(1 << 30))
        return res, val or [], gen, len(err.getvalue())

    lev = [60, 50, 40, 30, 20, 10, 0] if c["rep"] == 1 else [60, 10, 30, 10, 20]
    rows = []
    for v in lev:
        st, x = forked(lambda: one(v))
        if st != "ok":
            raise RuntimeError(f"{st} {x}")
        rows.append(x)
    # a degenerate quiet run (singular subsets) is no answer to compare with
    return {"lev": lev, "sts": [x[0] for x in rows], "vals": [x[1] for x in rows], "gen": [x[2] for x in rows], "nout": [x[3] for x in rows]}


def cost(c):
    return 20 if c["cls"] in ("cell", "cell9") else 4 if c["cls"] in ("ddc", "ddcq", "ddcw", "mm") else 1
