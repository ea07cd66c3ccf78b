#!/usr/bin/env python3
"""Appends the generated parts of DESIGN.md (seeds and repaired defects) after the marker line."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"; s = open(p).read()
M = "<!-- generated by tools/gen_design.py -->"
s = s.split(M)[0] + M + "\n\n## Planted changes and the checks that catch them\n\nEach is caught by the check of its property (the last column names what it takes to notice it at run time).\n\n| change | caught by | what it breaks | needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    s += "| %s | %s | %s | %s |\n" % (os.path.basename(d[:-1]), m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"))
s += "\n## Defects found and repaired, and known findings\n\n"
for l in open(V + "/known_findings.txt"):
    l = l.strip()
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: s += "* %s, repaired in %s: %s\n" % m.groups()
    m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", l)
    if m: s += "* %s, **known finding** `%s`: %s\n" % m.groups()
open(p, "w").write(s)
