#!/usr/bin/env python3
"""Writes DESIGN.md from the property table, the rules stated in the checks, the findings file and seeded/ (run after editing)."""
import ast, glob, json, os, re, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "design_data.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
checks = {c["property"]: c for c in man["checks"]}
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
find = [l.strip() for l in open(os.path.join(V, "known_findings.txt")) if re.match("(known|fixed):", l)]
head = open(os.path.join(V, "tools", "design_head.md")).read()
out = [head.rstrip(), "", "## Properties", ""]
seeds = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    seeds.setdefault(m["property"], []).append((os.path.basename(d), m))
for p in props:
    i = p["id"]
    out += [f"### {i} {p['title']}", "", p["statement"], ""]
    if i in na:
        out += [f"Not applicable: {na[i]}", ""]
        continue
    doc = ast.get_docstring(ast.parse(open(os.path.join(V, "analysis", "checks", i.lower() + ".py")).read()))
    b, lim, bat = D[i]
    out += [f"*Quantifies over* {p['quantifier']['text']}. *Tests cannot settle it:* {p['why_tests_cant']}", "",
            f"*Technique:* {checks[i]['technique']}.", "", "*Rule:* " + " ".join(doc.split()), "", f"*Decides:* {checks[i]['level_note'].split(' Trusts')[0]}", "",
            f"*Bounds and assumptions:* {b}", "", f"*Not decided:* {lim}", "", f"*Development batches:* {bat}", ""]
    fs = [l for l in find if f"property={i} " in l]
    k = [re.sub(r"^known: property=\S+ key=", "", l) for l in fs if l.startswith("known")]
    x = [re.sub(r"^fixed: property=\S+ ", "", l) for l in fs if l.startswith("fixed")]
    if k:
        out += ["*Known findings (recorded, not repaired):*"] + [f"- `{l.split(' ', 1)[0]}`: {l.split(' ', 1)[1]}" for l in k] + [""]
    if x:
        out += ["*Genuine defects repaired:*"] + [f"- {l}" for l in x] + [""]
    if seeds.get(i):
        out += ["*Planted bugs caught by this check:*"] + [f"- `{n}`: {m['what_it_breaks']}" for n, m in seeds[i]] + [""]
out.append(open(os.path.join(V, "tools", "design_tail.md")).read().rstrip())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
