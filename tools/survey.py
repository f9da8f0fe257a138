#!/usr/bin/env python3
"""Surveys the rounding errors of the repository's tree per function and region, with several compilers:
tools/survey.py [scale] [seeds...] > /tmp/x/survey.json"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import vlib, run as R
CL, CLXX = R.CL, R.CLXX
scale, seeds = float(sys.argv[1]), [int(s) for s in sys.argv[2:]]
libs = [vlib.Libs(), vlib.Direct("b-clang-O0", cc=CL, cxx=CLXX, cflags="-O0" + R.CMPLX, cxxflags="-O0 -std=c++11", fflags="-O0"),
        vlib.Direct("s-fma", cflags="-O3 -march=haswell -ffp-contract=fast", cxxflags="-O3 -march=haswell -ffp-contract=fast", fflags="-O3 -march=haswell -ffp-contract=fast")]
cells = {}
for i, l in enumerate(libs):
    exe = vlib.driver(l, ["p_acc.cpp"], name="p_acc")
    for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
        for s in seeds:
            o = vlib.Outcome(p, "quick", s)
            vlib.execute(o, exe, ["--prop", p, "--seed", str(s*10 + i), "--tier", "quick", "--scale", str(scale), "--threads", "8", "--dict", vlib.dictionary()], environ={"PV_SURVEY": "1"}, timeout=20000)
            for v in o.violations: print(l.name, v["key"], v["text"], file=sys.stderr)
            for k, v in o.maxima.items():
                if k.startswith("cell "):
                    c = cells.setdefault(k[5:], {"max": 0, "n": 0, "at": "", "by": {}})
                    c["n"] += o.counters[k]
                    c["by"][l.name] = max(c["by"].get(l.name, 0), v[0])
                    if v[0] > c["max"]: c["max"], c["at"] = v[0], v[1] + " [" + l.name + "]"
    print("done", l.name, file=sys.stderr)
json.dump(cells, sys.stdout, indent=0)
