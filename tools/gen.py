#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and checks.py (development helper, not a check)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, os.path.join(R, "tools")]
from props import PROPS
from checks import CHECKS
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in PROPS:
        over, text = p["q"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": over, "text": text}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("obs", []), "hook_needed": None}}) + "\n")
checks = []
na = []
for p in PROPS:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": p.get("na", "check not built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": p.get("tech", "runtime monitoring: seeded workloads under ASan+UBSan, online reference-model oracle"), "level": "exploration",
                   "level_note": p["note"] if "note" in p else
                   "Held on the executions produced (counts in the evidence file), not proved. Trusts the reference model in the harness, gcc's sanitizers and libdivsufsort."})
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
