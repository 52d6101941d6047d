"""writes MANIFEST.json from the specs present (run by hand after adding a property)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(f"{V}/tools/level_notes.json")) if os.path.exists(f"{V}/tools/level_notes.json") else {}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/spec/{i}.tla") and os.path.exists(f"{V}/harness/drv_{i}.py"):
        checks.append({"property": i, "quick_cmd": f"python3 harness/check.py {i} quick", "thorough_cmd": f"python3 harness/check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "TLA+ specification: TLC explores the design model exhaustively, TLC-generated cases are executed on the real code and the logged records are trace-checked by TLC against the specification",
                       "level": "model_checking",
                       "level_note": NOTES.get(i, "Design model exhaustive within its constants; the implementation is decided on every generated record (seeded sample of the stated case space). Trusted: IEEE doubles, java/Reals64.java (arithmetic, sorting, linear solves, distribution functions), the Python driver's logging.")})
    else:
        na.append({"property": i, "reason": NOTES.get("na", {}).get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 harness/check.py setup", "checks": checks, "not_applicable": na,
           "notes": "Language: TLA+ with TLC. No hooks in /repo. See DESIGN.md."}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
