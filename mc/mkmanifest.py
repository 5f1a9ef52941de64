"""Write MANIFEST.json from the check modules present (development helper)."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(path, name, default=None):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
            return ast.literal_eval(node.value)
    return default


checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    path = os.path.join(V, "mc", "checks", p.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check {p}",
        "thorough_cmd": f"./check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": const(path, "TECHNIQUE", "explicit-state exhaustive exploration of the real code"),
        "level": const(path, "LEVEL"),
        "level_note": const(path, "NOTE", const(path, "RULE")) ,
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the real code from outside. Commits in /repo are 'fix:' repairs only, listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
