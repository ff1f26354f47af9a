#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa
ROOT = os.path.dirname(HERE)
NOTE = ("Decides the property from the abstract summaries of the current source; trusts the interpreter of Python semantics in sa/, "
        "the documented library models, and the reference model in spec/. Obligations the analysis cannot decide are printed as UNDECIDED and prove nothing.")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "technique": p["tech"], "level": "other", "level_note": p.get("note", NOTE)})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
