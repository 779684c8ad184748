#!/usr/bin/env python3
"""Assembles DESIGN.md: tools/design_head.md, the properties with the method of their rule, planted bugs, tools/design_tail.md."""
import ast, json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(f"{root}/tools/design_head.md").read().rstrip(), "", "## 3. Properties", ""]
man = json.load(open(f"{root}/MANIFEST.json"))
claimed = {c.get("property") or c.get("id") or c.get("property_id") for c in man["checks"]}
seeds = {}
for m in sorted(glob.glob(f"{root}/seeded/*/meta.json")):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
for l in open(f"{root}/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i not in claimed: continue
    doc = ast.get_docstring(ast.parse(open(f"{root}/rules/{i}.py").read())) or ""
    out += [f"### {i} {p['title']}", "", p["statement"], "", "*How it is decided.* " + " ".join(doc.split()), ""]
    for s, d in seeds.get(i, []):
        out.append(f"* planted `{s}` (caught by {i}): {d['what_it_breaks']}; needs {d['needs']}")
    out.append("")
out += ["## 4. Not applicable", ""]
for n in man.get("not_applicable", []):
    out.append(f"* **{n.get('property') or n.get('id') or n.get('property_id')}**: {n['reason']}")
out += ["", open(f"{root}/tools/design_tail.md").read().rstrip(), ""]
open(f"{root}/DESIGN.md", "w").write("\n".join(out))
