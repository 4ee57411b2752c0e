#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for id in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, id)))
    rows.append((m["property"], "| %s | %s | %s | %s |" % (id, m["property"], m["what_it_breaks"], m["needs"])))
t = "\n".join(["| bug | caught by | breaks | needs |", "|---|---|---|---|"] + [r for _, r in sorted(rows)])
p = ROOT + "/DESIGN.md"
s = open(p).read()
open(p, "w").write(re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n\n" + t + "\n\n<!-- /bugs -->", s, flags=re.S))
