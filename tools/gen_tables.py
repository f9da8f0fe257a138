#!/usr/bin/env python3-vt
"""Writes src/ref_tables.inc (zeta values, 40 digits) from mpmath.  Run by hand; the output is committed."""
import mpmath as mp, os
mp.mp.dps = 60
out = os.path.join(os.path.dirname(__file__), "..", "src", "ref_tables.inc")
with open(out, "w") as f:
    f.write("// generated by tools/gen_tables.py (mpmath): zeta(n), n = 2..127\n")
    for n in range(2, 128):
        f.write("%sQ,\n" % mp.nstr(mp.zeta(n), 45, strip_zeros=False))
