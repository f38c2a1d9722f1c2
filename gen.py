#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NA
H = os.path.dirname(os.path.abspath(__file__))
with open(H + "/properties.jsonl", "w") as o:
    for p in PROPS + NA:
        o.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = dict(version=1, setup_cmd="python3 tool/facts.py",
    checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                 technique=p["tech"], level="other", level_note=p["note"]) for p in PROPS],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
    notes="No hooks: the checks read the source of /repo's working tree and never run it.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "claimed", len(NA), "not applicable")
