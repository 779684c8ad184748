#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=(), technique=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=" ".join(why.split()),
                  files=files, mechanism=mechanism, observe=list(observe), technique=technique, note=note, na=na))
exec(open(os.path.join(V, "tools", "props_table.py")).read())
with open(V + "/properties.jsonl", "w") as f:
    for q in P:
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mechanism"]], "observe_at": q["observe"]}}) + "\n")
checks = []
NOTE = ("Static: decided from MIR facts extracted from the current source by a compiler driver; sound for the code the rule covers up to the "
        "engine's stated abstractions (floats as reals, unbounded integers, library models of std/rayon/itertools); not a machine-checked proof.")
for q in P:
    if q["na"]:
        continue
    if not os.path.exists(V + "/rules/%s.py" % q["id"]):
        print("no rule yet:", q["id"]); continue
    checks.append({"property": q["id"], "quick_cmd": "python3 check.py " + q["id"], "thorough_cmd": "python3 check.py " + q["id"],
                   "evidence_file": "evidence/%s.json" % q["id"], "technique": q["technique"], "level": "other", "level_note": NOTE + (" " + q["note"] if q["note"] else "")})
m = {"version": 1, "setup_cmd": "python3 -m an.extract", "checks": checks,
     "not_applicable": [{"property": q["id"], "reason": q["na"]} for q in P if q["na"]] +
                       [{"property": q["id"], "reason": "no check built yet"} for q in P if not q["na"] and not os.path.exists(V + "/rules/%s.py" % q["id"])],
     "notes": "No hooks in /repo. All checks are static analyses over MIR facts of the current tree; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
