#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have units (run by hand after adding units)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NOTES = json.load(open(H + "/tools/notes.json"))
PY = "/opt/venv/bin/python check.py "
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists("%s/units/%s.py" % (H, i.lower())):
        na.append({"property": i, "reason": NOTES["na"].get(i, "no contract unit built yet")})
        continue
    checks.append({"property": i, "quick_cmd": PY + i, "thorough_cmd": PY + i + " --thorough",
                   "technique": "contract-based deductive verification of the Python source (VC generation, z3/cvc5); counterexamples replayed on the real code" + (NOTES["technique"].get(i, "")),
                   "level": NOTES["level"].get(i, "proof"),
                   "level_note": NOTES["note"].get(i, NOTES["default"])})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.append(\"/opt/veriftools/pyvenv/lib/python3.12/site-packages\"); import z3'",
           "checks": checks, "not_applicable": na,
           "notes": "Nothing to build: every check reads /repo's current source, transforms it in memory and generates its obligations afresh. No hooks in /repo."},
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
