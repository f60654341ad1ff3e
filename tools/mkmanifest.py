#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
title = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); title[d["id"]] = d["title"]
checks = []
for pid in sorted(title):
    if pid not in props.PROPS: continue
    P = props.PROPS[pid]
    ms = ", ".join(sorted({m["module"] for m in P["models"]}))
    tech = f"TLA+ specification ({P['module']}.tla" + (f"; models {ms}" if ms else "") + ") checked with TLC; traces recorded from the real code, on TLC-generated behaviours and seeded histories, validated against the specification by TLC"
    if not ms: tech = f"TLA+ specification ({P['module']}.tla); traces recorded from the real code on seeded histories in several compiler configurations, validated against the specification by TLC"
    checks.append(dict(property=pid, quick_cmd=f"python3 bin/check.py {pid} quick", thorough_cmd=f"python3 bin/check.py {pid} thorough",
        technique=tech, level="model_checking",
        level_note=P.get("note") or "Every recorded event of the real code has to be a step of the specification; the specification's own invariants are checked exhaustively at small constants. Bounded by the histories generated and the model constants, see DESIGN.md.",
        ))
na = []
json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
  notes="No hooks in /repo: everything is observed through the public interface. Repairs of genuine defects are 'fix:' commits listed in KNOWN_FINDINGS. bin/replay <file> re-executes a rejected history."),
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
