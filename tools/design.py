#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, i)))
    t.setdefault(m["property"], []).append(i.split("-", 1)[1] if i[:3].upper() == m["property"] else i)
tab = "<!-- bugs -->\n| check | planted bugs it catches |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, ", ".join(v)) for p, v in sorted(t.items())) + "<!-- /bugs -->"
s = open(H + "/DESIGN.md").read()
s = re.sub(r"@@TABLE@@|<!-- bugs -->.*<!-- /bugs -->", lambda _: tab, s, flags=re.S)
s = re.sub(r"@@N@@|\d+(?= edits which keep)", str(len(json.load(open(H + "/tools/refactorings.json")))), s)
open(H + "/DESIGN.md", "w").write(s)
