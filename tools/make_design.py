#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, the checks' own descriptions, known_findings.json and seeded/."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
props = [json.loads(x) for x in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


t = ["## How each property is decided", ""]
for p in props:
    t.append(f"### {p['id']} {p['title']}\n")
    path = f"checks/{p['id'].lower()}.py"
    if os.path.exists(path):
        c = consts(path)
        t.append(f"*Technique:* {c['TECHNIQUE']}.\n")
        t.append(f"*Cases and oracle:* {c['RULE']}\n")
        if c.get("ASSUMPTIONS"):
            t.append("*Assumptions:* " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
        t.append(f"*Why this reaches what tests cannot:* {p['why_tests_cant']}\n")
    else:
        t.append(f"Not applicable: {na[p['id']]}\n")
f = ["## Defects found by the checks", "", "Repaired in /repo (one `fix:` commit each):", ""]
for e in json.load(open("known_findings.json")):
    if e["status"] == "fixed":
        f.append(f"* {e['entry']}")
known = [e for e in json.load(open("known_findings.json")) if e["status"] == "known"]
if known:
    f += ["", "Recorded, not repaired (the check prints KNOWN-FINDING for them):", ""]
    f += [f"* {e['property']}: {e['what']} (signature `{e['sig']}`)" for e in known]
s = ["## Planted bugs and what catches them", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open("tools/seeded_results.json")) if os.path.exists("tools/seeded_results.json") else {}
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    s.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, 'not run yet')} |")
text = open("tools/DESIGN.in.md").read()
for k, v in (("@@TABLE@@", t), ("@@FINDINGS@@", f), ("@@SEEDED@@", s)):
    text = text.replace(k, "\n".join(v))
open("DESIGN.md", "w").write(text)
print(len(text))
