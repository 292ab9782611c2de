#!/usr/bin/env python3
"""writes MANIFEST.json from checks/ and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        t, n = NOTE.get(p, NOTE["default"])
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                           thorough_cmd="python3 check.py %s --tier thorough" % p,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=p, reason="the check is being built"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+, checked with TLC); harness/ runs /repo through its public interface. "
               "No hooks in /repo. VERIF_SEED varies the random part. Replays: python3 check.py --replay FILE.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
