#!/usr/bin/env python3
"""Writes DESIGN.md from docs/DESIGN.in.md, docs/props.md, seeded/*/meta.json and tools/seeds/results.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/docs/DESIGN.in.md").read().replace("@@PROPS@@", open(V + "/docs/props.md").read().strip())
R = json.load(open(V + "/tools/seeds/results.json")) if os.path.exists(V + "/tools/seeds/results.json") else {}
rows = ["| planted bug | property | what it needs | what it breaks | caught by the quick check (first rejected event) |", "|---|---|---|---|---|"]
ms = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in glob.glob(V + "/seeded/*/meta.json")}
for i, m in sorted(ms.items(), key=lambda x: (x[1]["property"], x[0])):
    r = R.get(i, {})
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | " + (f"{r['check']}: {r['by']}" if r.get("caught") else "**not caught**") + " |")
n = sum(1 for i in ms if R.get(i, {}).get("caught"))
rows.append(f"\n{n} of {len(ms)} planted bugs are caught by the quick check of their property.")
t = t.replace("@@SEEDS@@", "\n".join(rows))
t = t.replace("@@NFIX@@", str(sum(1 for l in open(V + "/KNOWN_FINDINGS") if l.startswith("fixed:"))))
open(V + "/DESIGN.md", "w").write(t)
