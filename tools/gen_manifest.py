"""Writes MANIFEST.json for the properties that have a module in props/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {}
exec(open(os.path.join(here, "tools", "techniques.py")).read())
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(here, "props", i.lower() + ".py")):
        continue
    tech, note = TECH[i]
    checks.append(dict(
        property=i, quick_cmd=f"python3 run_check.py {i} --tier quick",
        thorough_cmd=f"python3 run_check.py {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique=tech, level="exploration", level_note=note))
have = {c["property"] for c in checks}
na = [dict(property=p["id"], reason="the generated-input check for this property is not built yet")
      for p in props if p["id"] not in have]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="All checks: python3 run_check.py <id>; replay a failure with python3 run_check.py --replay <file>."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
