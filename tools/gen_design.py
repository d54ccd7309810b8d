#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, the harnesses' bounds, and the planted bugs."""
import re, glob, os, json
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(root + "/tools/design_head.md").read()
hs = []
for f in sorted(glob.glob(root + "/harness/h*/*.go")):
    s = open(f).read()
    for m in re.finditer(r"((?://.*\n)+)func (P\d\d_\w+)\(", s):
        hs.append((m.group(2), re.sub(r"\s+", " ", re.sub(r"(?m)^// ?", "", m.group(1))).strip()))
wins = {}
for n, d in sorted(hs):
    m = re.match(r"P\d\d_\w+: every document of (win\w+) ", d)
    if m:
        wins.setdefault(m.group(1), []).append(n[:3])
        continue
    out += "* **%s**%s\n" % (n, d[len(n):] if d.startswith(n) else ": " + d)
s = open(root + "/harness/h/win.go").read()
out += "\nDocuments with windows (`harness/h/win.go`), shared by several properties:\n\n"
for m in re.finditer(r"((?://.*\n)+)func (win\w+)\(", s):
    if m.group(2) in wins:
        d = re.sub(r"\s+", " ", re.sub(r"(?m)^// ?", "", m.group(1))).strip()
        out += "* **%s** (%s)%s\n" % (m.group(2), " ".join(sorted(set(wins[m.group(2)]))), d[len(m.group(2)):] if d.startswith(m.group(2)) else ": " + d)
out += "\n## Planted bugs\n\nEach was written from a property's text, compiles and passes the stable tests; `tools/runseeds.sh` runs the checks on them.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
caught = {}
try:
    for l in open(root + "/tools/seeds_caught.txt"):
        a = l.split()
        if a: caught[a[0]] = " ".join(a[1:])
except IOError:
    pass
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "?"))
try:
    out += open(root + "/tools/design_tail.md").read()
except IOError:
    pass
open(root + "/DESIGN.md", "w").write(out)
