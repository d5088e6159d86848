#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from registry import PROPS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        b = s["bounds"]; q = b["quick"] if isinstance(b, dict) else b
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=s.get("technique", "explicit-state exploration of the real code in lock step with a reference model"),
            level=s.get("level", "model_checking"),
            level_note="Exhaustive within: " + q + ". " + s["rule"] + ". " + s.get("note", "Nothing outside these bounds is claimed; trusts the reference model in harness/ and the compiler.")))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 -c 'import registry' && g++ --version >/dev/null", checks=checks, not_applicable=na,
         notes="No hooks in /repo: samplers are driven through their distribution traits; checks compile their harness against /repo's working tree on every run. Defects found and repaired or recorded: known_findings.json.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
