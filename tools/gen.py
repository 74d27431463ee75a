#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks them against the schemas."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
from registry import CHECKS

with open(HERE + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        for a in p["files"] + [w for _, w in p["mechanism"]] + [w for _, _, w in p["state"]]:
            assert os.path.exists("/repo/" + a.split(":")[0]), a
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                         **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]} if p["state"] else {}),
                         **({"observe_at": list(p["observe"])} if p["observe"] else {}),
                         hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[],
         notes="No hooks in /repo: the drivers under drivers/ call the real code as it is. See DESIGN.md.")
for p in PROPS:
    if p["claimed"]:
        assert p["id"] in CHECKS, p["id"]
        m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                                thorough_cmd=f"python3 check.py {p['id']} --thorough",
                                technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
