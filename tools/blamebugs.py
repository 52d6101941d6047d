#!/usr/bin/env python3
"""Dev tool: every line a seeded bug removes must be a line of the original repository (git blame)."""
import glob, re, subprocess
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()
base = subprocess.run(["git", "-C", "/repo", "rev-parse", "11f085f"], capture_output=True, text=True).stdout.strip()
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, ln, own, tot = None, 0, [], 0
    for l in open(d):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = l[6:]
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        elif m := re.match(r"@@ -(\d+)", l):
            ln = int(m[1])
        elif l.startswith("-"):
            tot += 1
            c = bl[ln - 1].split()[0].lstrip("^")
            if subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", c, base]).returncode:
                own.append(l)
            ln += 1
        elif l.startswith(" "):
            ln += 1
    if own:
        print(d.split("/")[3], tot, "own:", own)
