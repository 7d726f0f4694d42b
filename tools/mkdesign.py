#!/usr/bin/env python3
"""mkdesign.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeds/RESULTS.txt."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = open(V + "/tools/seeds/RESULTS.txt").read()
out = ["| bug | check | what it needs | result |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = f.split("/")[-2]; d = json.load(open(f))
    m = re.search(r"\b%s C\d\d missed at first(?: \(([^)]*)\))?, caught since" % n, res)
    e = "missed at first%s; caught since" % (" (%s)" % m.group(1) if m and m.group(1) else "") if m else \
        "missed" if re.search(r"\b%s C\d\d MISSED" % n, res) else "caught"
    if not re.search(r"\b%s\b" % n, res): e = "not run"
    out.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"].replace("|", "/"), e))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)", lambda m: m.group(1) + "\n".join(out) + "\n" + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
