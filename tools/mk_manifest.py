#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property with a harness, the rest under not_applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(here, "harness", "prop_%s.cpp" % p.lower())):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH.get(p, "property-based testing: " + ORACLE.get(p, "generated inputs against a reference model")),
            "level": "exploration",
            "level_note": "Generated-input search, deterministic in VERIF_SEED; no proof of absence. Runs the real code of /repo under AddressSanitizer and UBSan. "
                          + NOTE.get(p, "Trusts the reference model in /verif/harness.")})
    else:
        na.append({"property": p, "reason": NA.get(p, "not claimed: its check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check compiles /repo's own sources with its harness."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
