#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present in props/.
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {}  # technique and note per property
exec(open(os.path.join(R, "tools", "techniques.py")).read())
checks, na = [], []
for line in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    if os.path.exists(os.path.join(R, "props", i + ".cc")):
        t, n = T[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="tools/sync.sh && make -s -j8 all", checks=checks, not_applicable=na,
               notes="All checks are generated-input searches run by lib/pbt.cc; see DESIGN.md."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
