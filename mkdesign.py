#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the rules from core/src/props and the planted bugs from seeded/."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
props = [json.loads(l) for l in open("properties.jsonl")]
manifest = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}

def info(i):
    s = open(f"core/src/props/{i.lower()}.rs").read()
    rule = re.sub(r"\\\n\s*", "", re.search(r'rule: "((?:[^"\\]|\\.|\\\n)*)"', s, re.S).group(1))
    parts = re.findall(r'(?:part|enumerated)\w*\(\s*"([^"]+)"', s)
    return rule, parts

table = []
for p in props:
    rule, parts = info(p["id"])
    table.append(f"### {p['id']} {p['title']}\n\n"
                 f"*Deciding method*: {manifest[p['id']]['technique']}.\n\n{rule}\n\n"
                 f"Parts: {', '.join(parts)}."
                 + (f"\n\nWhy tests cannot: {p['why_tests_cant']}" if p.get("why_tests_cant") else ""))
seeds = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append((m["property"], f.split("/")[1], m["needs"]))
seeds.sort()
rows = "\n".join(f"| {i} | {n} | {needs} |" for i, n, needs in seeds)
text = open("DESIGN.in.md").read()
text = text.replace("@COUNT@", str(len(props))).replace("@SEEDS@", str(len(seeds)))
text = text.replace("@PROPERTIES@", "\n\n".join(table)).replace("@SEEDTABLE@", "| property | planted bug | needs |\n|---|---|---|\n" + rows)
open("DESIGN.md", "w").write(text)
