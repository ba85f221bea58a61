#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, os, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
f = os.path.join(root, "DESIGN.md"); t = open(f).read()
i = t.index("## 6. Planted bugs"); head = t[:i]
o = ["## 6. Planted bugs\n", "`seeded/<id>/` (verified with `tools/plant.sh`: builds, passes the stable tests, demo passes without and fails with it).\n",
     "| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    o.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
open(f, "w").write(head + "\n".join(o) + "\n")
