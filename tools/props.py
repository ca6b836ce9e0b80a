#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}})
    if na:
        NA.append({"property": pid, "reason": na})
    else:
        CHECKS.append({"property": pid, "quick_cmd": "python3 engine/run.py " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 engine/run.py " + pid,
                       "technique": technique, "level": "other", "level_note": note})


CHECKS = []
ERR = "abstract interpretation of the type-checked MIR: path-sensitive error-flow (typestate) analysis, every fallible call split into its outcomes"
ERRNOTE = ("sound for the modelled constructs under single-fault: one operation fails, the others succeed; "
           "an error counts as reported when the function returns Err, a value that carries the error, or hands it to an out-parameter")
exec(open(os.path.join(HERE, "tools", "proptable.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": CHECKS, "not_applicable": NA}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(CHECKS), "checks,", len(NA), "not applicable")
