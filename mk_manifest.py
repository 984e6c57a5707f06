#!/usr/bin/env python3
"""writes MANIFEST.json from slices.py and properties.jsonl"""
import json, os
from slices import PROPS, LEVEL, NOTES, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification (Verus, Z3) of the mechanically extracted real code; bounded search only to attach a failing input",
        "level": LEVEL.get(i, "proof"),
        "level_note": NOTES[i],
        "theorems": PROPS[i].get("key", []),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "hooks": {"guard": "sql_parse_verif", "enable": "RUSTFLAGS=--cfg sql_parse_verif with SQL_PARSE_VERIF_HOOK=/verif/harness/hook.rs (set by harness/build.sh); used only by the harness that looks for failing inputs",
               "source_commits": ["84cbb8d"]},
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i not in PROPS],
     "notes": "See DESIGN.md. Every check extracts /repo/src afresh and has Verus discharge all obligations of its slice."}
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(ids) - len(checks), "not")
