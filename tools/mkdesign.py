#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from known-findings.txt and the planted bugs (run by hand; no check uses it)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def put(s, name, body): return re.sub(r"(<!-- begin %s -->\n).*?(<!-- end %s -->)" % (name, name), lambda m: m.group(1) + body + m.group(2), s, flags=re.S)
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
fx = ""
for l in open(os.path.join(V, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx += "* %s, `%s`: %s\n" % m.groups()
s = put(s, "fixes", fx)
t = "| planted bug | caught by | needs |\n|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f)); one = lambda x: " ".join(str(x).split()).replace("|", "/")
    t += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), d.get("caught_by", d["property"]), one(d["needs"]))
s = put(s, "seeds", t)
open(p, "w").write(s)
