"""Executes the cases of one property against /repo and logs one JSON record per case (see kit.py)."""
import importlib, json, multiprocessing as mp, os, signal, sys, time, traceback, warnings
warnings.filterwarnings("ignore")
import logging
logging.disable(logging.CRITICAL)


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def _init(pid, seed):
    global MOD, SEED
    SEED = seed
    MOD = importlib.import_module(f"drv_{pid}")
    signal.signal(signal.SIGALRM, _alarm)


def _one(case):
    import numpy as np
    import kit
    rid = case["id"]
    rec = {"id": rid, "case": case}
    body = {k: v for k, v in case.items() if k != "id"}
    np.random.seed(12345)
    signal.setitimer(signal.ITIMER_REAL, getattr(MOD, "CASE_TIMEOUT", 60))
    try:
        with np.errstate(all="ignore"):
            out = MOD.run(body, kit.rng_for(body, SEED))
        rec["st"] = "ok"
        rec.update(out)
    except CaseTimeout:
        rec["st"] = "timeout"; rec["exc"] = "Timeout"
    except kit.Malformed as e:
        rec["st"] = "malformed"; rec["exc"] = str(e)[:300]
    except Exception as e:  # noqa
        rec["st"] = "raised"; rec["exc"] = type(e).__name__; rec["msg"] = str(e)[:300]
        rec["tb"] = traceback.format_exc()[-800:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    return json.dumps(rec)


def main():
    pid, seed, cases, log, deadline = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4], float(sys.argv[5])
    t0 = time.time()
    todo = [json.loads(x) for x in open(cases)]
    mod = importlib.import_module(f"drv_{pid}")  # fails loudly if robpy does not import
    if hasattr(mod, "cost"):
        todo.sort(key=lambda c: -mod.cost(c))
    timeouts = done = 0
    pool = mp.get_context("fork").Pool(min(8, os.cpu_count() or 1), initializer=_init, initargs=(pid, seed))
    with open(log, "w") as f:
        for line in pool.imap_unordered(_one, todo, chunksize=1 if len(todo) < 2000 else 20):
            f.write(line + "\n"); done += 1
            if '"st": "timeout"' in line:
                timeouts += 1
            if timeouts >= 4 or time.time() - t0 > deadline:
                break
    pool.terminate()
    print(json.dumps({"done": done, "skipped": len(todo) - done, "timeouts": timeouts}))


if __name__ == "__main__":
    main()
