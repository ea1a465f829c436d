#!/usr/bin/env python3
"""Generate MANIFEST.json from properties.jsonl, the checks present and tools/levels.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
levels = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i in levels:
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py quick" % i,
                           thorough_cmd="python3 checks/%s.py thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=levels[i]["technique"], level=levels[i].get("level", "model_checking"),
                           level_note=levels[i]["note"]))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specifications (spec/), checked with TLC and bound to the code by replaying TLC-generated behaviours into harnesses compiled from /repo/src and by validating traces recorded from them. No hooks are needed: the harnesses use the library's own interfaces.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
