"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {}
NOTE = {}
exec(open(os.path.join(ROOT, "tools", "levels.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "harness", "checks", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": "./run.sh {} quick".format(p),
            "thorough_cmd": "./run.sh {} thorough".format(p),
            "technique": TECH.get(p, "TLA+ specification checked with TLC; recorded runs of the "
                                     "real code judged by TLC against it"),
            "level": "model_checking",
            "level_note": NOTE.get(p, DEFAULT_NOTE)})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks observe through public arguments "
              "(objective functions, move strategies), subclasses and results."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
