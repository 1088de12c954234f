#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = ["<!-- bugs -->", "| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    c = lambda s: " ".join(str(s).split()).replace("|", "/")
    rows.append(f"| {f.split('/')[-2]} | {m['property']}: {c(m['what_it_breaks'])} | {c(m['needs'])} | {m.get('caught_by', m['property'])} |")
rows.append("<!-- /bugs -->")
p = here + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
