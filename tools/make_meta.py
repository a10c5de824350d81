#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note=None, technique=None, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, level_note=level_note, technique=technique, claimed=claimed))


exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        d = {"id": x["id"], "title": x["title"], "statement": x["statement"],
             "quantifier": {"over": x["over"], "text": x["text"]},
             "why_tests_cant": x["why"],
             "anchors": {"files": x["files"],
                         "state": [dict(zip(("name", "meaning", "where"), s)) for s in x["state"]],
                         "mechanism": [dict(zip(("name", "where"), m)) for m in x["mech"]],
                         "observe_at": list(x["observe"]), "hook_needed": None}}
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(d) + "\n")

checks = []
for x in P:
    if not x["claimed"] or not os.path.exists(os.path.join(V, "props", x["id"].lower() + ".py")):
        continue
    checks.append({
        "property": x["id"],
        "quick_cmd": "python3 check.py %s quick" % x["id"],
        "thorough_cmd": "python3 check.py %s thorough" % x["id"],
        "technique": x["technique"] or "TLA+ specification checked with TLC; TLC behaviours replayed into the code and recorded code traces judged by TLC",
        "level": "model_checking",
        "level_note": NOTES[x["id"]],
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks,
     "not_applicable": NA,
     "notes": "No hooks in /repo: the public API exposes the abstract state. Each check copies /repo's working tree to a "
              "scratch directory, drives it there and removes it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
