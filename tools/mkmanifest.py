"""Regenerate MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools/notes.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, f"checks/{i}.py")) and i in NOTES:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=NOTES[i][0], level="model_checking",
                           level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import h5py, numba, numpy, unyt'", checks=checks,
               not_applicable=na,
               notes="Checks drive the real code in /repo (pure Python, imported from its working tree); no hooks are "
                     "needed in /repo."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
