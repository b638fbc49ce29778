#!/usr/bin/env python3
"""Writes the profile list of each property in DESIGN.md from props.py."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "DESIGN.md")
out = []
for l in open(p):
    m = re.match(r"\* \*\*(C\d\d) ", l)
    if m and m[1] in props.P and "Profiles: " in l:
        l = re.sub(r"Profiles: [^.]*\.", "Profiles: " + ", ".join("%s x%d" % x for x in props.P[m[1]]["profiles"]) + ".", l)
    out.append(l)
open(p, "w").writelines(out)
