#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS = json.load(open(os.path.join(HERE, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append(
            dict(
                property=i,
                quick_cmd=f"python3 check.py {i}",
                thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                evidence_file=f"evidence/{i}.json",
                technique=c["technique"],
                level="model_checking",
                level_note=c["note"],
            )
        )
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    checks=checks,
    not_applicable=na,
    notes="TLA+ specifications in spec/, one module per subsystem; check.py runs TLC and replays / validates against /repo/src.",
)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
