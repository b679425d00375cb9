#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from table import TABLE, NA, NOTES

AI = ("abstract interpretation of the type-checked MIR (path-partitioned dataflow, symbolic widths and offsets, bit-provenance domain)")
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in TABLE + NA:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        fh.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p.get("technique", AI), "level": p.get("level", "proof"),
                 "level_note": p["note"]} for p in TABLE],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
