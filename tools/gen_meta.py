#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here); sys.path.insert(0, here); sys.path.insert(0, V)
import props, checks_table
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        an = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]: an["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": an}) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p["id"] in checks_table.CHECKS:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": props.LN + p["note"]})
    else:
        na.append({"property": p["id"], "reason": "no check is built for it yet"})
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "checks": checks, "not_applicable": na + props.NOT_APPLICABLE,
     "notes": "Checks compile /repo's working tree natively (no hooks in /repo are needed) and explore it with the explorer in mc/. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "without")
