#!/usr/bin/env python3
"""tools/gen_cells.py survey.json: writes src/cells.inc, the surveyed error bounds per function and region (see tools/survey.py)."""
import json, math, os, sys
FACTOR, FEW, FLOOR, SAMPLES, COLS = 3, 5, 6, 1900, 94     # FEW: the factor for cells with less than 10000 samples
rows = {}
for k, c in json.load(open(sys.argv[1])).items():
    kind, gen, prec, order, col = k.split()
    rows.setdefault((kind, int(gen), int(prec), int(order)), {})[int(col)] = c
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../src/cells.inc"), "w") as f:
    f.write("// generated by tools/gen_cells.py: kind, generic, precision, order, bound per region (0: too few samples, the global bound)\n")
    for r in sorted(rows):
        b = []
        for i in range(COLS):
            c = rows[r].get(i)
            b.append("%.3g" % max(FLOOR, (FACTOR if c["n"] >= 10000 else FEW)*c["max"]) if c and c["n"] >= SAMPLES and math.isfinite(c["max"]) else "0")
        while b and b[-1] == "0": b.pop()
        f.write("{ '%s', %s, %d, %d, { %s } },\n" % (r[0], "true" if r[1] else "false", r[2], r[3], ", ".join(b)))
