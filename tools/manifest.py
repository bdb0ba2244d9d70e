#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/*.py and properties.jsonl."""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = {}
try:
    from tools.na import NA
except ImportError:
    pass
checks, have = [], set()
for f in sorted(glob.glob(ROOT + "/checks/*.py")):
    n = os.path.basename(f)[:-3]
    if n.startswith("_"):
        continue
    m = importlib.import_module("checks." + n)
    have.add(m.ID)
    checks.append({"property": m.ID, "quick_cmd": "python3 run.py %s quick" % m.ID, "thorough_cmd": "python3 run.py %s thorough" % m.ID,
                   "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "exploration"), "level_note": m.LEVEL_NOTE})
na = []
for l in open(ROOT + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i not in have:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
out = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every check builds the tree's own sources, unmodified, into /verif/.build/<content hash>."}
json.dump(out, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
