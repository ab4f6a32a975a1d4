#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the properties' quantifiers, and the table of planted bugs
(caught-by column from tools/caught.txt, written by hand from runs of tools/runseeds.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
text = open(os.path.join(V, "tools", "design.in.md")).read()
plan = "\n".join("* **%s %s** - %s." % (p["id"], p["title"], p["quantifier"]["text"].rstrip(".")) for p in props)
caught = {}
f = os.path.join(V, "tools", "caught.txt")
if os.path.exists(f):
    for l in open(f):
        a = l.rstrip("\n").split("|", 1)
        if len(a) == 2:
            caught[a[0].strip()] = a[1].strip()
rows = ["| planted bug | property | needs | caught by (first violation) |", "|---|---|---|---|"]
d = os.path.join(V, "seeded")
for b in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/").replace("\n", " "), caught.get(b, "?").replace("|", "/")))
text = text.replace("@PLAN@", plan).replace("@SEEDED@", "\n".join(rows))
kf = [l[len("fixed: property="):].rstrip() for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")) if l.startswith("fixed:")]
text = text.replace("@FIXED@", "\n".join("* %s (%s): %s" % (k.split(" ", 2)[0], k.split(" ", 2)[1], k.split(" ", 2)[2]) for k in kf))
open(os.path.join(V, "DESIGN.md"), "w").write(text)
