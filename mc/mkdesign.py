"""Refresh the table of planted bugs in DESIGN.md (between markers), from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property, caught by its quick check | needs |", "|---|---|---|"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")
path = HERE + "/DESIGN.md"
s = open(path).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
open(path, "w").write(s)
print(len(rows) - 2)
