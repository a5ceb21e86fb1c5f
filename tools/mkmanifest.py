"""Write MANIFEST.json (source of truth for levels and notes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
LEVEL = {}      # id -> (level, note, technique)
exec(open(os.path.join(V, "tools", "levels.py")).read())
checks = []
for p in props:
    i = p["id"]
    lv, note, tech = LEVEL.get(i, ("exploration", "bounded CPython stage only so far", "bounded check of the real code against an independent oracle"))
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=tech, level=lv, level_note=note))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[]), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
