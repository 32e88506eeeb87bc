"""Writes /verif/MANIFEST.json: one check per property whose module exists in pbt/props."""
import json, os, subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(here, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "pbt", "props", i.lower() + ".py")):
        t, n = NOTES.get(i, ["property-based testing (Hypothesis) against a reference model", "see DESIGN.md"])
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="no check has been built (yet)"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Checks import dg_commons from /repo/src (pure Python, nothing to build); no hooks are needed. All choices derive from VERIF_SEED.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
