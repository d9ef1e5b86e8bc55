#!/usr/bin/env python3
"""Brings DESIGN.md's quick case counts and section 6 in step with the sources and seeded/.
Usage: mkdesign.py [directory with <id>.json evidence of a quick run]"""
import json, glob, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
ev = sys.argv[1] if len(sys.argv) > 1 else os.path.join(here, "evidence")
for f in glob.glob(ev + "/*.json"):
    i = os.path.basename(f)[:-5]
    n = json.load(open(f)).get("coverage", {}).get("planned")
    if n:
        s = re.sub(r"^(\| %s \|.*\| )\d+ \|$" % i, lambda m: m.group(1) + "%d |" % n, s, flags=re.M)
by = {}
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["what_it_breaks"].rstrip(".")))
t = "## 6. Planted bugs and what catches them\n\n"
t += open(os.path.join(here, "tools", "section6.md")).read().strip() + "\n\n"
t += "| check | planted bug | what it breaks |\n|---|---|---|\n"
for k in sorted(by):
    for i, w in by[k]:
        t += "| %s | %s | %s |\n" % (k, i, w.replace("|", "/"))
s = re.sub(r"\n## 6\. Planted bugs.*\Z", "\n", s, flags=re.S).rstrip() + "\n\n" + t
open(p, "w").write(s)
