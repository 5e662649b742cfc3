#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
with open(HERE + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), (p["id"], x)
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks = []
for p in props.PROPS:
    if p.get("na"):
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p.get("technique", props.EQ_TECH), "level": p.get("level", "other"), "level_note": p.get("note", props.EQ_NOTE)})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if p.get("na")],
     "notes": "All checks are static: they compile /repo's sources to IR and analyse it; no code of the library is executed."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
