#!/usr/bin/env python3
"""addfix.py PROPERTY 'substring of the fix commit subject' 'what failed' : append a fixed entry to known_findings.jsonl"""
import json, subprocess, sys
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
p, k, t = sys.argv[1:4]
hit = [l for l in log if k in l]
assert len(hit) == 1, hit
n = len(open("/verif/known_findings.jsonl").readlines()) + 1
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(json.dumps({"id": f"F{n:02d}", "property": p, "status": "fixed", "line": f"fixed: property={p} {hit[0].split()[0]} {t}"}) + "\n")
