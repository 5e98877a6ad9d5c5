#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "sim", "props")) if re.match(r"p\d\d\.py$", f)}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in SKIP:
        checks.append({
            "property": i,
            "quick_cmd": "%s check.py %s" % (PY, i),
            "thorough_cmd": "%s check.py %s --tier thorough" % (PY, i),
            "technique": TECHNIQUE.get(i, "deterministic simulation, seeded search over schedules and faults"),
            "level": "exploration",
            "level_note": LEVEL_NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "the simulation for this property is not built yet")})
m = {"version": 1, "setup_cmd": "%s -m compileall -q sim check.py" % PY,
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print([c["property"] for c in checks])
