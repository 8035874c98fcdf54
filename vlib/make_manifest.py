"""Writes /verif/MANIFEST.json: every property with a module in checks/ is claimed."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(HERE, "vlib", "techniques.py")).read(), T)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        tech, note = T["TECH"][i]
        checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i, "thorough_cmd": "bash run.sh %s thorough" % i,
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": T["NA"].get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore vlib/build.py all", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the monitors observe public calls, files and arrays, sys.monitoring line events, and sanitizer reports of native code rebuilt from the working tree."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
