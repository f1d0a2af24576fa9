#!/usr/bin/env python3
"""Assembles DESIGN.md: the three parts, the bounds, the repairs and the planted changes."""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks_table import CHECKS
root = os.path.dirname(here)
part = lambda n: open(os.path.join(here, n)).read().rstrip() + "\n"
out = [part("design.head.md").rstrip(), part("design.props.md").lstrip()]
out.append("\n### Bounds\n\n")
for p in sorted(CHECKS):
    b = CHECKS[p]["bounds"]
    out.append(f"- **{p} {CHECKS[p]['title']}** quick: {b['quick']}; thorough: {b['thorough']}\n")
tail = part("design.tail.md")
fixes = "".join("| %s | %s | %s |\n" % (l.split()[1].split("=")[1], l.split()[2], " ".join(l.split()[3:]))
                for l in open(os.path.join(root, "known-findings.txt")) if l.startswith("fixed:"))
tail = tail.replace("<!--FIXES-->", "| check | commit | what failed |\n|---|---|---|\n" + fixes)
seeds = ""
for m in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    d = json.load(open(m))
    seeds += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d.get("caught_by", d["property"]), d["needs"])
tail = tail.replace("<!--SEEDS-->", "| change | caught by | needs |\n|---|---|---|\n" + seeds)
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(x if x.endswith("\n") else x + "\n" for x in out[:2]) + "".join(out[2:]) + "\n" + tail)
