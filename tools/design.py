"""Write DESIGN.md (run: python3 tools/design.py)."""
import ast
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE / "tools"))
out = [(HERE / "tools/design_head.md").read_text().rstrip() + "\n"]
props = [json.loads(x) for x in (HERE / "properties.jsonl").read_text().splitlines() if x.strip()]
extra = json.loads((HERE / "tools/design_extra.json").read_text())
for p in props:
    t = ast.parse((HERE / f"props/{p['id']}.py").read_text())
    rule, flows = "", []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "RULE":
            rule = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "attr", "") == "workload":
                    a = [x.value for x in d.args]
                    doc = (ast.get_docstring(n) or "").split("\n")[0].rstrip(".")
                    flows.append(f"`{n.name}` ({a[0]}/{a[1]}{'; ' + doc if doc else ''})")
    e = extra.get(p["id"], {})
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(rule + "\n")
    out.append("Workloads (cases per quick/thorough round): " + ", ".join(flows) + ".\n")
    for k, name in (("bounds", "Bounds"), ("why", "Beyond the tests"), ("note", "Note")):
        if k in e:
            out.append(f"{name}: {e[k]}\n")
k = json.loads((HERE / "known_findings.json").read_text())
out.append("## 6. Fixed defects\n")
out += [f"* {x}" for x in k["fixed"]]
out.append("\nKnown, not repaired:\n")
out += [f"* {x['id']} ({x['property']}): {x['what']}" for x in k["findings"]]
out.append("\n## 7. Planted bugs\n")
out.append("Each is in `seeded/<id>/` with a demonstration; written from the property and the code, then run against the check.\n")
caught = extra.get("_seeded", {})
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted((HERE / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs']} | {caught.get(d.name, '?')} |")
(HERE / "DESIGN.md").write_text("\n".join(out) + "\n")
print(len(props), "properties", len(k["fixed"]), "fixed")
