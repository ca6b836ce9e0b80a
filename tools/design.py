#!/usr/bin/env python3
"""Writes DESIGN.md from design.head.md, the property table, the rules named in the last evidence files, and the texts below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["props"]
src = open(os.path.join(H, "tools", "props.py")).read().replace("__file__", repr(os.path.join(H, "tools", "props.py")))
ns = {}
exec(src, ns)
MAN = {c["property"]: c for c in ns["CHECKS"]}
exec(open(os.path.join(H, "tools", "designtext.py")).read())
out = []
for p in ns["P"]:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i not in MAN:
        out.append("Not applicable: %s\n" % [n["reason"] for n in ns["NA"] if n["property"] == i][0])
        continue
    out.append("*Decided by* %s. *Bounds:* %s.\n" % (MAN[i]["technique"], MAN[i]["level_note"].rstrip(".")))
    try:
        e = json.load(open(os.path.join(H, "evidence", i + ".json")))
        for r in e["coverage"]["rules"]:
            out.append("* `%s` (%d): %s" % (r["rule"], r["instances"], r["text"]))
    except FileNotFoundError:
        pass
    out.append("\n*Oracle:* %s\n" % ORACLE.get(i, ORACLE["*"]))
    if i in EXCL:
        out.append("*Deliberately not judged:* %s\n" % EXCL[i])
    out.append("*Why tests cannot settle it:* %s\n" % p["why_tests_cant"])
t = open(os.path.join(H, "tools", "design.head.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", SEEDS.strip()).replace("@@FA@@", FA.strip())
open(os.path.join(H, "DESIGN.md"), "w").write(t)
