"""Rewrite /verif/MANIFEST.json from the registry."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from registry import CHECKS  # noqa: E402

ids = [json.loads(x)["id"] for x in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                   "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": c.get("technique", "TLA+ specification checked with TLC; traces of the real code judged against it by TLC"),
                   "level": "model_checking", "level_note": c.get("note", "")})
m = {"version": 1, "setup_cmd": "python3 harness/selftest.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in CHECKS]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
