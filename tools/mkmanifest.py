"""Writes /verif/MANIFEST.json from properties.jsonl and the table of families."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "harness"))
sys.dont_write_bytecode = True
import families
checks, na = [], []
for line in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(line)
    if p["id"] not in families.MAP:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    c = "/opt/veriftools/pyvenv/bin/python check.py %s " % p["id"]
    tech, note = families.DESCRIBE(p["id"])
    checks.append({"property": p["id"], "quick_cmd": c + "quick", "thorough_cmd": c + "thorough", "technique": tech,
                   "level": "model_checking", "level_note": note, "evidence_file": "evidence/%s.json" % p["id"]})
json.dump({"version": 1, "setup_cmd": "/opt/veriftools/pyvenv/bin/python tools/setup.py", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo: the checks drive the library through its public extension points."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
