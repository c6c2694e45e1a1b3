#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_props.md, known_findings.txt, seeded/ and build/seeded.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = lambda p: open(os.path.join(V, p)).read()
o = r("tools/design_head.md") + r("tools/design_props.md")
o += "## Defects found and repaired\n\nEach is one `fix:` commit in /repo with the failing behaviour below; the check that found it passes on the repaired tree.\n\n| property | commit | what failed |\n|---|---|---|\n"
for l in r("known_findings.txt").splitlines():
    if l.startswith("fixed: property="):
        a = l[len("fixed: property="):].split(" ", 2)
        o += "| %s | %s | %s |\n" % tuple(a)
o += "\n## Known findings\n\nGenuine defects that are recorded, not repaired (the files are examples, which commits may not change); reported as KNOWN-FINDING in every run.\n\n| property | key | what fails |\n|---|---|---|\n"
for l in r("known_findings.txt").splitlines():
    if l.startswith("open: property="):
        a = l[len("open: property="):].split(" ", 2)
        o += "| %s | %s | %s |\n" % (a[0], a[1][4:], a[2])
p = os.path.join(V, "tools/seeded_results.json")
res = json.load(open(p)) if os.path.exists(p) else {}
b = os.path.join(V, "build/seeded.json")
if os.path.exists(b):
    res.update(json.load(open(b)))
d = os.path.join(V, "seeded")
ids = sorted(os.listdir(d)) if os.path.isdir(d) else []
if ids:
    res = {k: v for k, v in res.items() if k in ids}
    json.dump(res, open(p, "w"), indent=1, sort_keys=True)
    o += "\n## Planted bugs and what catches them\n\nEach was written from the property and the code, compiles, passes the stable tests and has a demonstration. Last run of the quick checks (seed 1):\n\n| bug | property | needs | result |\n|---|---|---|---|\n"
    for i in ids:
        m = json.load(open(os.path.join(d, i, "meta.json")))
        o += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), "; ".join("%s %s" % kv for kv in sorted(res.get(i, {}).items())) or "not run")
    o += "\n" + r("tools/design_seeds.md")
open(os.path.join(V, "DESIGN.md"), "w").write(o)
