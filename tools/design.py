#!/usr/bin/env python3
"""writes DESIGN.md: the fixed text below, the rules from the module docstrings, and
tools/detected.json (which check reports which planted change)"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEXT = open(V + "/tools/design.md").read()
props = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    props[d["id"]] = d
extra = {}
cur = None
for l in open(V + "/tools/design-props.md"):
    if l.startswith("## C"):
        cur = l[3:6]
        extra[cur] = ""
    elif cur:
        extra[cur] += l
out = []
for k in sorted(props):
    f = f"{V}/sa/props/{k.lower()}.py"
    out.append(f"### {k} {props[k]['title']}\n")
    if os.path.exists(f):
        doc = " ".join(ast.get_docstring(ast.parse(open(f).read())).split())
        out.append(f"*Decided by* (`sa/props/{k.lower()}.py`): {doc}\n")
    out.append(extra.get(k, "").strip() + "\n")
det = json.load(open(V + "/tools/detected.json")) if os.path.exists(V + "/tools/detected.json") else {}
rows = ["| change | property | what it breaks | reported by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {', '.join(det.get(d, [])) or '-'} |")
t = TEXT.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
