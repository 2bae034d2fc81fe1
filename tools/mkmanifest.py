#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property that has a check, the rest as not applicable."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
ns = {}
exec(open(os.path.join(here, "levels.py"), encoding="utf-8").read(), ns)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ns["CLAIMS"] and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        tech, note = ns["CLAIMS"][i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=ns["NA"].get(i, "the check for this property is not finished yet")))
m = dict(version=1, setup_cmd="python3 tools/setup_check.py", hooks=dict(guard="TOOL1CD_VERIF_HOOKS", enable="not needed: no hooks were added; every observation is made through public calls and files", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8"), ensure_ascii=False, indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
