"""writes MANIFEST.json from properties.jsonl and the checks there are"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from harness.checks import CHECKS
from tools.notes import TECH, NOTE, NOT
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in CHECKS and p not in NOT:
        checks.append({"property": p, "quick_cmd": "env VERIF_TIER=quick /opt/venv/bin/python check.py %s" % p, "thorough_cmd": "env VERIF_TIER=thorough /opt/venv/bin/python check.py %s" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH(p), "level": "model_checking", "level_note": NOTE(p)})
    else:
        na.append({"property": p, "reason": NOT.get(p, "check under construction")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the code under test is driven through its own entry points. /repo has only 'fix:' commits (known_findings.txt)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
