"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import ast
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(HERE, "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    consts = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("TECHNIQUE", "LEVEL_NOTE"):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append(dict(property=pid, quick_cmd=f"bash run.sh {pid} quick", thorough_cmd=f"bash run.sh {pid} thorough",
                       evidence_file=f"evidence/{pid}.json",
                       technique=consts.get("TECHNIQUE", "property-based testing (Hypothesis) against a reference model"),
                       level="exploration",
                       level_note=consts.get("LEVEL_NOTE", "Generated cases against an independent oracle; holds on everything explored, bounds in DESIGN.md.")))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not yet")
