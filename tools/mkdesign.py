#!/usr/bin/env python3
"""writes the per-property section of DESIGN.md from props.py (between the markers)"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
o = []
for k in sorted(props.PROPS):
    p = props.PROPS[k]
    hs = []
    for r in p["runs"]:
        if r["h"] not in hs:
            hs.append(r["h"])
    o.append("### %s — %s\n" % (k, p["title"]))
    o.append("- *Decides*: " + p["claim"] + ".")
    o.append("- *Bounds*: " + "; ".join(p["bounds"]) + ".")
    if p["assumptions"]:
        o.append("- *Assumes*: " + "; ".join(p["assumptions"]) + ".")
    o.append("- *Harnesses* (%s): %s." % (", ".join(p["files"] or ["py/%s.py" % p["py"]]), ", ".join("`%s`" % h for h in hs)))
    o.append("- *What tests cannot reach*: " + p["why"] + ".\n")
f = V + "/DESIGN.md"
s = open(f).read()
a, b = "<!-- properties begin -->", "<!-- properties end -->"
s = s[: s.index(a) + len(a)] + "\n\n" + "\n".join(o) + "\n" + s[s.index(b):]
import json
t = ["| change | property | needs, in order to manifest | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded"), key=lambda d: (json.load(open(V + "/seeded/" + d + "/meta.json"))["property"], d)):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    t.append("| `%s` | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", "`check.py %s`" % m["property"])))
a, b = "<!-- seeds begin -->", "<!-- seeds end -->"
s = s[: s.index(a) + len(a)] + "\n\n" + "\n".join(t) + "\n\n" + s[s.index(b):]
open(f, "w").write(s)
