#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json
CO = "crates/host/codec/src/"
P = []      # (property dict, check dict | None, not-applicable reason | None)


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
               "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": x, "where": files[0]} if isinstance(x, str) else x for x in mech]}},
              technique and {"property": id, "quick_cmd": "python3 /verif/check.py %s" % id,
                             "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % id,
                             "technique": technique, "level": "other", "level_note": note}, na))


ENGINE = "interprocedural dataflow over rustc MIR (disjunctive provenance domain)"
exec(open(__file__.rsplit("/", 1)[0] + "/props.py").read())

if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for p, c, n in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup",
         "checks": [c for p, c, n in P if c],
         "not_applicable": [{"property": p["id"], "reason": n} for p, c, n in P if n],
         "notes": "All checks share one front end: a rustc driver that dumps the type-checked MIR of every workspace crate from /repo's working tree (cached by content), and one dataflow engine. No hooks in /repo. Known findings and repaired defects: known-findings.jsonl."}
    json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
