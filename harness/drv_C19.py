import signal
from apikit import *
CASE_TIMEOUT = 100


def badfit(cls, o, args, r):
    """a fit that raises: NaN where it is not supported, or too few dimensions / rows"""
    a = [x.copy() for x in args]
    if FAM[cls] == "ddc":
        a[0].insert(0, "txt", "a")
    elif FAM[cls] == "clean":
        a = [np.arange(3)]
    elif r or cls in CELL:
        a = [np.asarray(x)[:1] for x in a] if FAM[cls] not in ("uni", "power") else [np.stack([a[0], a[0]], axis=1)]
    else:
        a[0] = np.array(a[0], dtype=float)
        a[0][(1,) + (0,) * (a[0].ndim - 1)] = np.nan
    try:
        o.fit(*a)
    except Exception:  # noqa
        return False
    return True


def build(c):
    objs = []
    for i, cls in enumerate(c["cls"]):
        if c["share"] == "T" and i == 1:
            inner = objs[0]
            if FAM[cls] == "reg":
                objs.append(MMRegression(initial_estimator=inner, max_iterations=0 if cls == "mm0" else 500))
            elif FAM[cls] == "scaler":
                objs.append(RobustScaler(scale_estimator=inner, with_centering=cls != "scalernc"))
            else:
                objs.append(DDC(scale_estimator=inner))
        else:
            objs.append(MAKE[cls](i + 1))
    return objs


def run(c, rng):
    data = [[dataset(cls, np.random.default_rng(rng.integers(1 << 62)), ["heavy" if cls.endswith("few") else "normal", "skew" if FAM[cls] in ("uni", "power") else "corr"][d], c["n"] + 5 * d, c["p"]) for d in range(2)] for cls in c["cls"]]
    todo = {}

    def history():
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(CASE_TIMEOUT)
        objs = build(c)
        deep = c["share"] != "T"
        p0 = [params(o, deep) for o in objs]
        f = [0] * len(objs)
        ev = []
        for e in c["s"]:
            i = e["o"] - 1
            cls, o = c["cls"][i], objs[i]
            args = [x.copy() for x in data[i][e["d"] - 1][0]]
            out = {"op": e["op"], "o": e["o"], "d": e["d"], "self": True}
            if e["op"] == "fit":
                out["self"] = o.fit(*args) is o
                f[i] = e["d"]
            elif e["op"] == "bad":
                if badfit(cls, o, args, e["r"]):
                    out["op"] = "bad"  # it did not raise; what it fitted is not part of the session
                f[i] = -1
            else:
                if f[i] == 0:
                    continue
                op = READS[FAM[cls]][e["r"] % len(READS[FAM[cls]])]
                if cls.startswith("clean") and op == "est":
                    op = "transform"
                out.update(key=f[i], read=op, e=e["e"])
                out["res"], val = attempt(lambda: read(cls, o, op, data[i][e["e"] - 1][1]))
                out["val"] = val or []
            out["pok"] = [params(o2, deep) for o2 in objs] == p0
            ev.append(out)
        return ev

    def fresh(i, d, reads):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(CASE_TIMEOUT)
        objs = build(c)
        objs[i].fit(*[x.copy() for x in data[i][d][0]])
        return [attempt(lambda: read(c["cls"][i], objs[i], op, data[i][e][1])) for op, e in reads]

    st, ev = forked(history)
    if st != "ok":
        raise RuntimeError(f"{st} {ev}")
    need = {}
    for k, e in enumerate(ev):
        if e["op"] == "read" and e["key"] > 0:
            need.setdefault((e["o"] - 1, e["key"] - 1), []).append(k)
    for (i, d), ks in need.items():
        # the last read of a class is taken by another fresh object than the first: reads must not build on each other
        for part in (ks[:1], ks[1:]):
            if part:
                st, v = forked(lambda: fresh(i, d, [(ev[k]["read"], ev[k]["e"] - 1) for k in part]))
                if st != "ok":
                    raise RuntimeError(f"fresh {st} {v}")
                for k, (res, val) in zip(part, v):
                    ev[k].update(wres=res, want=val or [])
    return {"cls": c["cls"], "ev": ev}


def cost(c):
    return sum(5 if x in ("mmdef", "cell", "cell9", "ddcw") else 1 for x in c["cls"])
