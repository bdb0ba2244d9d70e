"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json. No check uses this."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"P01-quote": "strings of #'s operand get more escapes", "P02-shift": "results of shifts compared with negative numbers", "B14-cap": "counts above 32 KB", "L04-type": "duplicates of another symbol type",
          "B12-lj": "values passed to longjmp have 32 bits", "D02-sep": "directories with \\\\ in names", "H01-last": "contradictory options before the effective ones", "C13-dim2": "generated pairs of redeclarations (`vlib/redecl.py`)"}
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
rows = ["<!-- seeds -->", "| planted | caught by | what it breaks | the check had to learn |", "|---|---|---|---|"]
X = os.path.join(ROOT, "tools", "seedextra.json")
MISSED.update(json.load(open(X)) if os.path.exists(X) else {})
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"] if not MISSED.get(d, "").startswith("NOT") else "-", m["what_it_breaks"].replace("|", "\\|"), MISSED.get(d, "")))
rows.append("<!-- /seeds -->")
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->") + len("<!-- /seeds -->")
open(p, "w").write(s[:a] + "\n".join(rows) + s[b:])
