"""Append 'fixed' entries to known_findings.json (development helper): add_fixed.py PROP COMMIT WHAT ..."""
import json
import os
import sys

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(path))
a = sys.argv[1:]
for p, c, w in zip(a[::3], a[1::3], a[2::3]):
    d["findings"].append({"status": "fixed", "property": p, "commit": c, "what": w, "line": f"fixed: property={p} {c} {w}"})
with open(path, "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
