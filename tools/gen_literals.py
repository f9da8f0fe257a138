#!/usr/bin/env python3
"""Writes src/literals.txt: the numeric literals of the repository's sources, so that later ones are tried more often."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import vlib
fl, il = vlib.literals()
with open(os.path.join(vlib.V, "src", "literals.txt"), "w") as o:
    for s in sorted("f" + x for x in fl) + sorted("i" + x for x in il):
        o.write(s + "\n")
