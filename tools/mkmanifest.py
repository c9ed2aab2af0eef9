#!/usr/bin/env python3
"""Writes MANIFEST.json: a check is claimed as soon as checks/<id>.py exists (its technique / level note in NOTES below)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "TLA+ model checked with TLC + conformance of recorded executions of the real code against the TLA+ specification (trace validation)"
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p + ".py")):
        n = NOTES.get(p, {})
        checks.append({"property": p, "quick_cmd": "python3 checks/%s.py" % p, "thorough_cmd": "python3 checks/%s.py --thorough" % p,
                       "technique": n.get("technique", T), "level": n.get("level", "model_checking"),
                       "level_note": n.get("note", "The specification is explored exhaustively within the bounds given in DESIGN.md; the code is bound to it by validating recorded executions of randomly generated scenarios, so the code is covered as far as those scenarios reach.")})
    else:
        na.append({"property": p, "reason": NOTES.get(p, {}).get("na", "No check has been built for this property yet; nothing is claimed.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+), drivers of the real code in harness/, shared machinery in lib/vlib.py. See DESIGN.md."}
h = NOTES.get("hooks")
if h:
    m["hooks"] = h
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
