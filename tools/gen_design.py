"""DESIGN.md from its parts (run by hand): python3 tools/gen_design.py"""
import glob
import json
import os

R = "/verif"
head, props, tail = (open(f"{R}/tools/design/{n}.md").read() for n in ("head", "props", "tail"))
rows = []
for f in sorted(glob.glob(f"{R}/evidence/C*.json")):
    e = json.load(open(f))
    c = e["coverage"]
    if e["tier"] == "quick":
        rows.append(f"| {e['property']} | {len(c['harnesses'])} | {c['states']} | {c['queries_discharged']} | {c['queries_undecided']} | {e['wall_s']:.0f} s |")
seeds = ["| planted bug | check (all caught) | needs |", "|---|---|---|"]
for d in sorted(glob.glob(f"{R}/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    seeds.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
open(f"{R}/DESIGN.md", "w").write(head + props + "\n".join(rows) + "\n" + tail.replace("SEEDTABLE", "\n".join(seeds) + "\n"))
