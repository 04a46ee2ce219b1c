#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["quant"]},
               "why_tests_cant": p["why"],
               "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p.get("observe"): rec["anchors"]["observe_at"] = [p["observe"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(rec, ensure_ascii=False) + "\n")
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                           "level": "other", "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "All checks are static: they load and type-check /repo's current tree with go/packages, build SSA and decide the property from it. No hooks in /repo. Thorough and quick commands are the same: every check is complete for its rule; C01, C02 and C03 share one analysis of about three minutes each, all others take seconds."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
