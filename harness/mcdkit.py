"""Shared by the drivers of the MCD properties."""
import numpy as np
from kit import *
from robpy.covariance import FastMCD, DetMCD


def make(c, alpha, n, p, starts=40):
    cc, rw = c.get("cc", "T") == "T", c.get("rw", "T") == "T"
    if c["est"] == "fast":
        k = None if c["part"] == 0 else max(1, min(c["part"], n // (3 * p + 4)))
        return FastMCD(alpha=alpha, n_initial_subsets=starts, n_initial_c_steps=c.get("ics", 2), n_best_subsets=c.get("nbest", 10),
                       n_partitions=k, random_seed=c["seed"], correct_covariance=cc, reweighting=rw)
    return DetMCD(alpha=alpha, correct_covariance=cc, reweighting=rw)


def outputs(m, n, p):
    out = {"classical": not hasattr(m, "best_subset"), "loc": Vv(m.location_, p), "cov": M(m.covariance_, p, p)}
    if not out["classical"]:
        b = m.best_subset
        out.update(ix=IX(b.indices, n), hloc=Vv(b.location, p), hcov=M(b.scale, p, p), hdet=S(b.determinant))
    return out
