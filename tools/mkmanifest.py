#!/usr/bin/env python3
"""regenerate MANIFEST.json from the registered rules and the reasons below"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import allrules  # noqa: E402,F401
from sa.rule import RULES, VERIF  # noqa: E402
from tools.notes import NA, TECHNIQUE  # noqa: E402

props = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in RULES and p not in NA:
        t, note = TECHNIQUE.get(p, ("static analysis: value-flow rules over the source", ""))
        checks.append({"property": p, "level": "other",
                       "level_note": note or "decides the rules listed in the evidence for all inputs within the stated abstraction; undecided instances are counted, not reported",
                       "technique": t,
                       "quick_cmd": "python3 check.py %s" % p,
                       "thorough_cmd": "python3 check.py %s --thorough" % p,
                       "evidence_file": "evidence/%s.json" % p})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --selfcheck", "checks": checks, "not_applicable": na}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
