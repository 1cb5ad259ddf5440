"""Write MANIFEST.json from the registry (run after adding a check)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from registry import CHECKS, TECH, NA
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i, "thorough_cmd": "python3-vt check.py %s --thorough" % i,
                       "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import numpy' && clang++ --version", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
