"""Print the table of planted bugs for DESIGN.md: table.py MATRIX.json (bug id -> checks that catch it)."""
import glob
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
matrix = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}
print("| bug | property | what it breaks | also caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(f"{here}/seeded/*")):
    i, j = os.path.basename(d), json.load(open(d + "/meta.json"))
    other = [c for c in matrix.get(i, []) if c != j["property"]] if i in matrix else ["(not measured)"]
    print(f"| {i} | {j['property']} | {j['what_it_breaks']} | {' '.join(other) or '-'} |")
