#!/usr/bin/env python3
"""Write DESIGN.md: the text below, the bounds from harness/specs.py, the results of the planted changes from tools/caught.txt."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/harness")
from specs import SPECS
props = {}
for l in open(V + "/properties.jsonl"): p = json.loads(l); props[p["id"]] = p
HEAD = open(V + "/tools/design_head.md").read(); TAIL = open(V + "/tools/design_tail.md").read()
PER = {}
for blk in open(V + "/tools/design_props.md").read().split("\n@@")[0:]:
    blk = blk.lstrip("@").strip()
    if blk: k, t = blk.split("\n", 1); PER[k.strip()] = t.strip()
o = [HEAD.rstrip(), "", "## The properties, one by one", "", "The bounds are those of `harness/specs.py`; the evidence files repeat them together with what a run covered.", ""]
for i in sorted(props):
    p = props[i]; s = SPECS.get(i)
    o += ["### %s %s" % (i, p["title"]), "", PER.get(i, ""), ""]
    if s:
        o += ["*Bounds.* " + s["bounds"][0].upper() + s["bounds"][1:] + ".", ""]
        if s.get("outside"): o += ["*Outside.* " + s["outside"][0].upper() + s["outside"][1:] + ".", ""]
o += [TAIL.rstrip(), "", "## Planted changes", "", "Each lies in `seeded/<id>/` (patch, demonstration, description); no check reads them. Found: the check of the property exits 1 with its VIOLATION line in the quick tier.", "", "| change | property | needs | found |", "|---|---|---|---|"]
caught = {}
for l in open(V + "/tools/caught.txt"):
    a = l.split(None, 1)
    if a: caught[a[0]] = a[1].strip()
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(m)); d = json.load(open(m)); o.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"].replace("|", "\\|"), caught.get(n, "?")))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
