#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and the checks that exist."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)) and i in notes["claimed"]:
        n = notes["claimed"][i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3-vt %s" % f,
                           thorough_cmd="VERIF_TIER=thorough python3-vt %s" % f,
                           technique=n["technique"], level=n.get("level", "model_checking"), level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=notes["not_applicable"].get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py",
               hooks=dict(guard="FEELLGOOD_VERIF", enable="checks copy /repo/src to /verif/build and compile it with -DFEELLGOOD_VERIF -I/verif/harness (lib/vlib.py)",
                          source_commits=notes["hook_commits"]),
               checks=checks, not_applicable=na, notes=notes.get("notes", "")),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
