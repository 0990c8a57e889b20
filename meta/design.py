#!/usr/bin/env python3
"""DESIGN.md from meta/design.tmpl.md, known_findings.txt, meta/props.py and seeded/*/meta.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
root = os.path.dirname(HERE)
from props import PROPS, NA
t = open(os.path.join(HERE, "design.tmpl.md")).read()
fx = []
for l in open(os.path.join(root, "known_findings.txt")):
    if l.startswith("fixed: property="):
        p, h, d = l[len("fixed: property="):].strip().split(" ", 2)
        fx.append("| %s | `%s` | %s |" % (p, h, d))
t = t.replace("@@FIXES@@", "%d defects, one `fix:` commit each (also in `known_findings.txt`):\n\n| property | commit | what failed |\n|---|---|---|\n" % len(fx) + "\n".join(fx))
titles = {p["id"]: p for p in PROPS}
t = t.replace("@@NA@@", "\n".join("* **%s** (%s): %s" % (k, titles[k]["title"], v) for k, v in NA.items()))
rows = []
sd = os.path.join(root, "seeded")
for d in sorted(os.listdir(sd)):
    try:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
    except OSError:
        continue
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"]))
t = t.replace("@@SEEDED@@", "| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
more = os.path.join(HERE, "design.more.md")
t = t.replace("@@MORE@@", open(more).read().strip() if os.path.exists(more) else "")
open(os.path.join(root, "DESIGN.md"), "w").write(t)
