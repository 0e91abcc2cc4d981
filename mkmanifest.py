"""Writes MANIFEST.json from the scenario modules present."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
NOTE = json.load(open(os.path.join(here, "levels.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE["checks"]:
        n = NOTE["checks"][i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} --tier quick", thorough_cmd=f"./check.sh {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=n["technique"], level=n["level"], level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=NOTE["na"].get(i, "no check built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Deterministic simulation with fault injection; see DESIGN.md. No hooks were needed in /repo: files, clock and "
               "directory order are intercepted at the Python level below a scratch root, the C kernels are recompiled from "
               "/repo's sources with an instrumented OpenMP shim.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
