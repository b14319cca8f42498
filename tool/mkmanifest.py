#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules and the not-applicable table."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tool", "not_applicable.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(V, "sa", "checks", pid.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module("checks." + pid.lower())
        checks.append({"property": pid, "quick_cmd": "python3 sa/check.py " + pid,
                       "thorough_cmd": "python3 sa/check.py %s --thorough" % pid,
                       "technique": m.TECHNIQUE, "level": "other", "level_note": " ".join(m.LEVEL_NOTE.split())})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "not decided yet")})
json.dump({"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
