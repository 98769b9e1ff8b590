"""Writes MANIFEST.json from the check modules present (run: python3 tools/mkmanifest.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
NA = {"P31": "The sandbox has no CUDA device and no CUDA-enabled torch; every observation of this property needs an execution on a GPU. Runtime monitoring could decide it there (the P20-P22 monitors with device=cuda), but not here."}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(ROOT, "vf", "checks", i.lower() + ".py")) and i in NOTES:
        checks.append({"property": i, "quick_cmd": f"python3 vf/run.py {i} --tier quick", "thorough_cmd": f"python3 vf/run.py {i} --tier thorough",
                       "technique": NOTES[i][0], "level": "exploration" if len(NOTES[i]) < 3 else NOTES[i][2], "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "The check is not built yet."})
m = {"version": 1, "setup_cmd": "mkdir -p evidence && /opt/venv/bin/python -c 'import numpy, numba'", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "No hooks were added to /repo: the monitors attach from outside (the checks run /repo/src directly, so every run uses the current working tree)."},
     "notes": "run.py PID [--tier quick|thorough] [--seed N] [--replay FILE]; VF_REPO overrides the tree under test during development."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", [x["property"] for x in na])
