#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))

exec(open(os.path.join(here, "tools", "properties.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check %s -tier quick" % p["id"],
        "thorough_cmd": "./check %s -tier thorough" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "Every check runs the code of /repo, rebuilt from its working tree, black-box through its exported API or the ofx command; no hooks in /repo are needed. See DESIGN.md.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
