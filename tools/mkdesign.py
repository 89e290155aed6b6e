#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl.md, tools/props.py, tools/design.py and seeded/*/meta.json + tools/seeded_results.json."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "design.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = "## Properties and how each is decided\n\n"
for p in props:
    out += "### %s — %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["id"] in na: out += "**Not applicable**: %s\n\n" % na[p["id"]]
    else: out += "*How:* %s\n\n" % DESIGN[p["id"]]
try: res = json.load(open(os.path.join(HERE, "tools", "seeded_results.json")))
except Exception: res = {}
sd = "Each change passes the stable tests; its demo fails with it. `caught by` lists the quick checks that report it.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    sd += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], res.get(i, "?"))
t = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
open(os.path.join(HERE, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", out).replace("@@SEEDED@@", sd))
