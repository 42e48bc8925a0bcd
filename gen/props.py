#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run in /verif after changing what is claimed."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state))

N = []  # not applicable: property definition, reason

def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, reason)

exec(open(os.path.join(here, "gen", "list.py")).read())

TRUST = (" Trusted: the Go type checker and x/tools SSA construction, the class-hierarchy call graph, "
         "and the analyser's models of the standard library named in DESIGN.md.")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

man = {"version": 1,
       "setup_cmd": "./setup.sh",
       "checks": [], "not_applicable": [],
       "notes": "Every check is one run of the analyser in /verif/checker (Go, vendored x/tools SSA) over "
                "the current source of /repo; nothing of the repository is executed. quick and thorough are "
                "the same deterministic analysis: it is exhaustive over paths in its abstraction, so there is "
                "nothing deeper to sample. No hooks are needed in /repo."}
for p in P:
    if p["technique"] is None or p["id"] in PENDING:
        man["not_applicable"].append({"property": p["id"], "reason": PENDING.get(p["id"], p["note"])})
        continue
    man["checks"].append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                          "thorough_cmd": "./check.sh " + p["id"], "technique": "static analysis: " + p["technique"],
                          "level": "other", "level_note": p["note"] + TRUST})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
