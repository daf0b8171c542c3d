#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
import props

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(VERIF, "properties.jsonl"), "w") as fd:
    for p in props.ALL:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": list(p["mechanism"]), "state": list(p["state"]),
                         "observe_at": list(p["observe"]), "hook_needed": None}}
        assert len(p["title"]) <= 80, p["title"]
        for f in p["files"]:
            assert os.path.exists("/repo/" + f), f
        fd.write(json.dumps(d) + "\n")
na = {x["property"] for x in props.NOT_APPLICABLE}
m = {
    "version": 1,
    "setup_cmd": "python3 mc/build.py",
    "checks": [
        {"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
         "thorough_cmd": "python3 run.py %s thorough" % p["id"],
         "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
        for p in props.ALL if p["id"] not in na],
    "not_applicable": props.NOT_APPLICABLE,
    "notes": "No hooks in /repo: system calls are interposed when linking the harnesses.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fd:
    json.dump(m, fd, indent=1)
    fd.write("\n")
