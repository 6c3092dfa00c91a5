"""Rewrites the generated tables of DESIGN.md (families per check; planted bugs) between their markers."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, os.path.join(V, "checks"))


def families():
    rows = ["| check | family | quick | thorough | what a case is |", "|---|---|---|---|---|"]
    for k in range(1, 21):
        c = importlib.import_module("c%02d" % k).CHECK
        for f in c.families:
            rows.append("| %s | %s | %d | %d | %s |" % (c.pid, f.name, f.quick, f.thorough, f.about.replace("|", "\\|")))
    return "\n".join(rows)


def seeded():
    rows = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
    return "\n".join(rows)


p = os.path.join(V, "DESIGN.md")
t = open(p).read()
for name, body in (("families", families()), ("seeded", seeded())):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n" + body + "\n" + t[j:]
open(p, "w").write(t)
