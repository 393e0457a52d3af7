#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props/meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from props import meta
with open(V + "/properties.jsonl", "w") as f:
    for k, p in sorted(meta.P.items()):
        f.write(json.dumps({a: b for a, b in p.items() if a[0] != "_"}) + "\n")
checks, na = [], []
for k, p in sorted(meta.P.items()):
    if k in meta.NA:
        na.append(dict(property=k, reason=meta.NA[k]))
        continue
    assert os.path.exists(f"{V}/props/{k.lower()}.py"), k
    t, n = p["_m"]
    checks.append(dict(property=k, quick_cmd=f"./run {k} quick", thorough_cmd=f"./run {k} thorough",
                       evidence_file=f"evidence/{k}.json", technique=t,
                       level="model_checking", level_note=n))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
          open(V + "/MANIFEST.json", "w"), indent=1)
for p in meta.P.values():
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(checks), "checks", len(na), "n/a")

import glob, importlib
rows = []
for k, p in sorted(meta.P.items()):
    if k in meta.NA:
        rows.append(f"* **{k} {p['title']}** - not applicable: {meta.NA[k]}")
        continue
    src = open(f"{V}/props/{k.lower()}.py").read()
    import ast
    t = ast.parse(src)
    ass = []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            ass = ast.literal_eval(n.value)
    d = p["_d"] or (ast.get_docstring(t) or "").split("\n\n", 1)[-1].replace("\n", " ")
    rows.append(f"* **{k} {p['title']}** - {d}\n" + "\n".join(f"  - {a}" for a in ass))
seeds = ["| change | property | caught | needs |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    seeds.append(f"| {i} | {m['property']} | {res.get(i, '?')} | {m['needs']} |")
t = open(V + "/tools/DESIGN.in.md").read()
open(V + "/DESIGN.md", "w").write(t.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)))
