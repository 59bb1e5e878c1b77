#!/usr/bin/env python3
"""Appends the table of planted changes to DESIGN.md (from seeded/*/meta.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "## Planted changes"
s = open(V + "/DESIGN.md").read().split(M)[0].rstrip() + "\n\n" + M + """

Each is caught by the quick check of the property it names (exit 1 with that property's VIOLATION line); kept under `seeded/`.

| change | property | needs |
|---|---|---|
"""
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    s += "| %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"))
extra = os.path.join(V, "tools", "mutants.md")
if os.path.exists(extra):
    s += "\n" + open(extra).read()
open(V + "/DESIGN.md", "w").write(s)
