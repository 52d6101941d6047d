#!/usr/bin/env python3
"""Dev tool: build and confirm a seeded bug.  mkbug.py SPEC.py  where SPEC.py defines BUGS = [dict(id, property, needs,
breaks, edits=[(file, old, new)], demo=python source)].  Writes seeded/<id>/ only when the patch applies, the tests pass,
the demo exits 0 on the clean tree and nonzero with the patch."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=2
export MPLCONFIGDIR="$(mktemp -d)"
timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
"""
only = sys.argv[2:]
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = os.path.join(V, "seeded", b["id"])
    if os.path.exists(d) and not only:
        continue
    tmp = tempfile.mkdtemp(prefix="bug")
    try:
        t = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", t], check=True)
        for f, old, new in b["edits"]:
            s = open(f"{t}/{f}").read()
            assert s.count(old) == 1, (b["id"], f, old, s.count(old))
            base = subprocess.run(["git", "-C", "/repo", "show", f"11f085f:{f}"], capture_output=True, text=True).stdout
            if old not in base:
                print("  note: context not verbatim in base:", b["id"], repr(old[:60]))
            open(f"{t}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
        out = os.path.join(tmp, "s")
        os.makedirs(out)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.sh", "w").write(SH); os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/demo.py", "w").write(b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        r0 = subprocess.run(["bash", f"{out}/demo.sh"], cwd="/repo", capture_output=True, text=True)
        r1 = subprocess.run(["bash", f"{out}/demo.sh"], cwd=t, capture_output=True, text=True)
        env = {**os.environ, "PYTHONPATH": t, "MPLBACKEND": "Agg"}
        rt = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "0", "tests"] if False else
                            ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=t, env=env, capture_output=True, text=True)
        good = r0.returncode == 0 and r1.returncode not in (0, 124) and rt.returncode == 0
        print(b["id"], b["property"], "OK" if good else "REJECTED", "clean", r0.returncode, "patched", r1.returncode, "tests", rt.stdout.strip().splitlines()[-1] if rt.stdout else rt.stderr[-300:])
        if not good:
            print("   ", (r0.stdout + r0.stderr)[-500:], "|", (r1.stdout + r1.stderr)[-300:], "|", rt.stdout[-600:] if rt.returncode else "")
            continue
        print("    ", (r1.stdout + r1.stderr).strip()[-120:])
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(out, d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
