#!/usr/bin/env python3
"""Writes DESIGN.md: design-head.md, the per-property part (from the rule modules and tools/props.py), design-tail.md."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), HERE]
import meta

COST = json.load(open(os.path.join(HERE, "costs.json")))
out = [open(os.path.join(HERE, "design-head.md")).read().rstrip() + "\n"]
for p, c, na in meta.P:
    if na:
        continue
    m = importlib.import_module("sa.rules." + p["id"].lower())
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Rule.* %s.\n" % m.RULE.rstrip("."))
    out.append("*How it is decided.* %s %s\n" % (m.EXPLAIN, c["level_note"]))
    out.append("*Why tests cannot reach it.* %s\n" % p["why_tests_cant"])
    out.append("*Assumed.* %s.\n" % "; ".join(m.ASSUME))
    out.append("*Least coverage for an answer.* %s. *Cost.* about %s s once the front end's output is cached.\n" % (", ".join("%s ≥ %d" % x for x in m.FLOORS.items()), COST.get(p["id"], "?")))
out.append("## Properties this family cannot decide here\n")
for p, c, na in meta.P:
    if na:
        out.append("* **%s %s** — %s" % (p["id"], p["title"], na))
tail = open(os.path.join(HERE, "design-tail.md")).read()
root = os.path.dirname(HERE)
fixed = [json.loads(l) for l in open(os.path.join(root, "known-findings.jsonl")) if l.strip()]
tail = tail.replace("@@FIXED@@", "\n".join("| %s | %s | %s |" % (d["property"], d["commit"], d["what"].split(d["commit"], 1)[1].strip()) for d in fixed if d["status"] == "fixed"))
rows = []
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    d = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], d["what_it_breaks"]))
out.append("\n" + tail.replace("@@SEEDS@@", "\n".join(rows)))
open(os.path.join(os.path.dirname(HERE), "DESIGN.md"), "w").write("\n".join(out))
