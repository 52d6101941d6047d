#!/usr/bin/env python3
"""Entry point of every check:  check.py <ID> [quick|thorough]   |   check.py <ID> replay <file>

1. TLC explores the design specification spec/<ID>_Design.tla exhaustively (small constants).
2. TLC enumerates / samples the configuration space spec/<ID>.tla!Cases and writes the cases.
3. harness/drive.py executes every case against the real code in /repo and logs a record each.
4. TLC (spec/TraceKit.tla with spec/<ID>.tla!Judge) consumes the log and names every violated clause.
Exit 0: held; 1: VIOLATION line(s); 2: machinery failure.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.path.join(V, "build")
PY = "/opt/venv/bin/python"
NCPU = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    pass


def build_java():
    src = sorted(glob.glob(os.path.join(V, "java", "*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()
    stamp = os.path.join(BUILD, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    tmp = tempfile.mkdtemp(prefix="vbuild")
    try:
        subprocess.run(["javac", "-nowarn", "-cp", f"{TLA}:{CM}", "-d", tmp, *src], check=True, capture_output=True)
        os.makedirs(BUILD, exist_ok=True)
        for f in os.listdir(tmp):
            shutil.copy(os.path.join(tmp, f), os.path.join(BUILD, f))
        with open(stamp, "w") as fh:
            fh.write(h)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tlc(wd, module, cfg, args=(), env=None, workers=1, mem="2g", timeout=900, light=True):
    md = tempfile.mkdtemp(prefix="md", dir=wd)
    cmd = ["java", "-XX:+UseSerialGC" if light else "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m",
           f"-Djava.io.tmpdir={md}", f"-DTLA-Library={V}/spec:{wd}", "-cp", f"{BUILD}:{TLA}:{CM}", "tlc2.TLC",
           "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers), "-deadlock", *args, "-config", cfg, module]
    try:
        p = subprocess.run(cmd, cwd=wd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out on {module}")
    return p.returncode, p.stdout + p.stderr


def brief(out):
    for key in ("*** Errors", "***Parse Error***", "Error:", "Fatal", "Exception"):
        i = out.find(key)
        if i >= 0:
            return out[i:i + 1500]
    return out[-1500:]


def stats(out):
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", ""))
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def run_design(pid, tier, wd, res):
    """exhaustive exploration of every design module of the property"""
    tot_d = tot_g = 0
    info = []
    try:
        for tla in sorted(glob.glob(f"{V}/spec/{pid}_Design*.tla")):
            mod = os.path.basename(tla)[:-4]
            cfg = f"{V}/spec/{mod}.thorough.cfg" if tier == "thorough" and os.path.exists(f"{V}/spec/{mod}.thorough.cfg") else f"{V}/spec/{mod}.cfg"
            rc, out = tlc(wd, tla, cfg, workers=NCPU if tier == "thorough" else 4, mem="6g", light=False, timeout=5400 if tier == "thorough" else 600, args=["-coverage", "1"])
            d, g = stats(out)
            if rc != 0:
                i = max(0, out.find("*** Errors") if "*** Errors" in out else out.find("***Parse Error***") if "***Parse" in out else out.find("Error:"))
                res["err"] = f"design model {mod} failed:\n{out[i:i + 3000]}"
                return
            acts = dict((a, int(n)) for a, n in re.findall(r"<(\w+) line [^>]*>: \d+:(\d+)", out))
            info.append({"module": mod, "distinct": d, "generated": g, "actions": acts})
            tot_d += d; tot_g += g
    except Exception as e:  # noqa
        res["err"] = repr(e)
        return
    res.update(states=tot_d, transitions=tot_g, models=info)


def gen(pid, tier, seed, wd):
    cases = os.path.join(wd, "cases.ndjson")
    with open(os.path.join(wd, "MCGen.tla"), "w") as f:
        f.write(f"---- MODULE MCGen ----\nEXTENDS {pid}, GenKit\n"
                "ASSUME \\A i \\in 1..Len(Cases) : ndJsonSerialize(IOEnv.CASES \\o \".\" \\o ToString(i), SetToSeq(Cases[i]))\n"
                "====\n")
    open(os.path.join(wd, "MCGen.cfg"), "w").write("")
    rc, out = tlc(wd, "MCGen", "MCGen.cfg", args=["-seed", str(seed)], env={"CASES": cases, "TIER": tier}, mem="4g")
    if rc != 0:
        raise Machinery("case generation failed:\n" + brief(out))
    got = []
    for f in sorted(glob.glob(cases + ".*"), key=lambda s: int(s.rsplit(".", 1)[1])):
        for line in open(f):
            if line.strip():
                got.append(json.loads(line))
    # stable order, stable ids
    keyed = sorted((json.dumps(c, sort_keys=True), c) for c in got) if not got or not isinstance(got[0], list) else [(json.dumps(c), c) for c in got]
    with open(cases, "w") as f:
        for i, (k, c) in enumerate(keyed):
            c = dict(c)
            c["id"] = f"c{i}"
            f.write(json.dumps(c) + "\n")
    return cases, len(keyed)


def drive(pid, tier, seed, cases, log, deadline):
    env = {**os.environ, "PYTHONPATH": f"/repo:{V}/harness", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
           "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "TIER": tier}
    mpl = tempfile.mkdtemp(prefix="mpl")
    if os.path.isdir("/opt/vp/mplconfig"):
        for f in os.listdir("/opt/vp/mplconfig"):
            shutil.copy(os.path.join("/opt/vp/mplconfig", f), mpl)
    env["MPLCONFIGDIR"] = mpl
    try:
        p = subprocess.run([PY, f"{V}/harness/drive.py", pid, str(seed), cases, log, str(deadline)], env=env,
                           capture_output=True, text=True, cwd="/", timeout=deadline + 120)
    except subprocess.TimeoutExpired:
        raise Machinery("driver timed out")
    finally:
        shutil.rmtree(mpl, ignore_errors=True)
    if p.returncode != 0:
        raise Machinery("driver failed:\n" + (p.stdout + p.stderr)[-3000:])
    return json.loads(p.stdout.strip().splitlines()[-1])


def judge_chunk(args):
    pid, wd, k, lines, tier = args
    bad, cnt, unj = [], {}, []
    dist = gen_ = 0
    lines = list(lines)
    while lines:
        d = tempfile.mkdtemp(prefix=f"j{k}_", dir=wd)
        tr, vd = os.path.join(d, "trace.ndjson"), os.path.join(d, "verdict.json")
        open(tr, "w").writelines(lines)
        open(os.path.join(d, "MCTrace.tla"), "w").write(f"---- MODULE MCTrace ----\nEXTENDS TraceKit, {pid}\n====\n")
        open(os.path.join(d, "MCTrace.cfg"), "w").write(
            "SPECIFICATION TSpec\nCONSTANT JudgeOp <- Judge\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n")
        rc, out = tlc(d, "MCTrace", "MCTrace.cfg", env={"TRACE": tr, "VERDICT": vd, "TIER": tier}, mem="3g", timeout=3600 if tier == "thorough" else 800)
        if rc == 0 and os.path.exists(vd):
            v = json.load(open(vd))
            if v["n"] != len(lines):
                raise Machinery("verdict does not cover the trace")
            bad += [tuple(x) for x in v["bad"]]
            for c, t in v["cnt"].items() if isinstance(v["cnt"], dict) else []:
                o = cnt.get(c, [0, 0, 0])
                cnt[c] = [a + b for a, b in zip(o, t)]
            s = stats(out)
            return bad, cnt, unj, dist + s[0], gen_ + s[1]
        # a record whose outputs the specification cannot even evaluate
        ls = re.findall(r"/\\ l = (\d+)", out)
        i = (int(ls[-1]) if ls else 1) - 1
        if "Parsing or semantic analysis failed" in out or "Could not find" in out or i >= len(lines) or len(unj) > 20:
            raise Machinery("judge failed:\n" + brief(out))
        rec = json.loads(lines.pop(i))
        unj.append((rec["id"], out[-1500:]))
        bad.append((rec["id"], "Unjudgeable"))
    return bad, cnt, unj, dist, gen_


def judge(pid, tier, wd, log):
    lines = open(log).readlines()
    k = max(1, min(NCPU, (len(lines) + 3) // 4))
    # balance by size
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    buckets = [[] for _ in range(k)]
    for pos, i in enumerate(order):
        buckets[pos % k].append(i)
    jobs = [(pid, wd, j, [lines[i] for i in sorted(b)], tier) for j, b in enumerate(buckets) if b]
    bad, cnt, unj = [], {}, []
    d = g = 0
    with ThreadPoolExecutor(len(jobs) or 1) as ex:
        for b, c, u, dd, gg in ex.map(judge_chunk, jobs):
            bad += b; unj += u; d += dd; g += gg
            for kk, t in c.items():
                o = cnt.get(kk, [0, 0, 0]); cnt[kk] = [x + y for x, y in zip(o, t)]
    return bad, cnt, unj, len(lines), d, g


def known():
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                out.append(json.loads(line))
    return out


def match(entry, pid, rec, clause):
    if entry.get("status") != "open" or entry["property"] != pid or clause not in entry["clauses"]:
        return False
    c = rec.get("case", {})
    return all(c.get(k) == v for k, v in entry["match"].items())


def trim(x, n=6):
    if isinstance(x, list):
        return [trim(y, n) for y in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    return x


def main():
    pid = sys.argv[1]
    if pid == "setup":
        build_java()
        return 0
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    build_java()
    wd = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        log = os.path.join(wd, "log.ndjson")
        tier = "quick" if mode == "replay" else mode
        design = {}
        th = threading.Thread(target=run_design, args=(pid, tier, wd, design))
        if mode == "replay":
            cases = os.path.join(wd, "cases.ndjson")
            rep = json.load(open(sys.argv[3]))
            seed = rep.get("seed", seed)
            tier = rep.get("tier", tier)
            open(cases, "w").write(json.dumps(rep["case"]) + "\n")
            n = 1
        else:
            th.start()
            cases, n = gen(pid, tier, seed, wd)
        t1 = time.time()
        dinfo = drive(pid, tier, seed, cases, log, 420 if tier == "quick" else 7200)
        t2 = time.time()
        bad, cnt, unj, nrec, jd, jg = judge(pid, tier, wd, log)
        t3 = time.time()
        if mode != "replay":
            th.join()
            if "err" in design:
                raise Machinery(design["err"])
        recs = {}
        need = {b[0] for b in bad}
        samples = []
        for line in open(log):
            r = json.loads(line)
            if r["id"] in need:
                recs[r["id"]] = r
            if len(samples) < 3 and r.get("st") == "ok":
                samples.append(trim(r))
        kn = known()
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        viol, found = {}, {}
        for rid, clause in bad:
            hit = [e for e in kn if match(e, pid, recs[rid], clause)]
            if hit:
                found[hit[0]["id"]] = hit[0]
            else:
                viol.setdefault(rid, []).append(clause)
        for e in found.values():
            print(f"KNOWN-FINDING: property={pid} {e['what']}")
        shown = 0
        for rid, clauses in sorted(viol.items()):
            if shown >= 10:
                break
            path = os.path.join(V, "replays", f"{pid}_{rid}.json")
            json.dump({"property": pid, "seed": seed, "tier": tier, "case": recs[rid].get("case"), "clauses": clauses,
                       "record": recs[rid], "replay_cmd": f"VERIF_SEED={seed} python3 harness/check.py {pid} replay {path}"}, open(path, "w"))
            print(f"VIOLATION property={pid} replay={path} clauses={','.join(clauses)} case={json.dumps(trim(recs[rid].get('case')))[:300]}")
            shown += 1
        if len(viol) > shown:
            print(f"... and {len(viol) - shown} more violating records")
        if os.environ.get("VERIF_DEBUG"):
            print(json.dumps(cnt, indent=0)); print(dinfo)
            for u in unj[:3]:
                print("UNJUDGEABLE", u[0], u[1])
        if mode != "replay":
            if nrec == 0:
                raise Machinery("no record was produced")
            vac = [c for c, t in cnt.items() if t[1] + t[2] == 0]
            ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
                  "coverage": {"states": design.get("states", 0), "transitions": design.get("transitions", 0),
                               "traces_validated_against_impl": nrec, "samples": samples,
                               "design_models": design.get("models", []), "trace_states": jd, "trace_transitions": jg,
                               "cases_generated": n, "cases_skipped_for_time": dinfo.get("skipped", 0), "clause_counts_na_ok_fail": cnt,
                               "clauses_never_applicable": vac, "known_findings_seen": sorted(found)},
                  "assumptions": ["IEEE-754 double arithmetic and java/Reals64.java (sorting, linear solves, distribution functions) are trusted",
                                  "only the logged executions are decided; the design model is exhaustive within its constants"],
                  "wall_s": round(time.time() - t0, 2), "violations": len(viol),
                  }
            ev["coverage"]["phase_s"] = {"gen": round(t1 - t0, 1), "drive": round(t2 - t1, 1), "judge": round(t3 - t2, 1)}
            os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(V, "evidence", f"{pid}.json"), "w"), indent=1)
        print(f"{pid} {tier}: {nrec} records, {sum(t[1] for t in cnt.values())} clause evaluations ok, "
              f"{len(viol)} violating, design states {design.get('states', 0)}, {time.time() - t0:.1f}s")
        return 1 if viol else 0
    except Machinery as e:
        print(f"ERROR {pid}: {e}")
        return 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
