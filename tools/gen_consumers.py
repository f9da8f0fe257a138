"""Writes src/consumer_values.json (25 digits) from mpmath: what programs that use the installed package must compute.
Run by hand with python3-vt; the output is committed."""
import json, mpmath as mp, os
mp.mp.dps = 60
REAL = ["-3.5", "-0.75", "0.3125", "0.875", "1", "2.5"]
COMP = [("0.25", "0.4375"), ("-1.25", "0.75"), ("2.5", "-1.5"), ("0.5", "0.875")]
ANG = ["0.375", "1.5", "2.5", "4.75", "-1"]
def s(v):
    return mp.nstr(v, 25)
def li(n, z):
    return mp.polylog(n, z) if z != 1 else mp.zeta(n)
def cl(n, x, sl=False):
    v = mp.polylog(n, mp.expj(mp.mpf(x)))
    return v.imag if (n % 2 == 0) != sl else v.real
out = {"R": {}, "Z": {}, "C": {}, "Lin": [], "Cln": [], "Sln": []}
for n in range(2, 7):
    out["R"][n] = [[x, s(mp.re(li(n, mp.mpf(x))))] for x in REAL]
    out["Z"][n] = [[x, y, s(li(n, mp.mpc(x, y)).real), s(li(n, mp.mpc(x, y)).imag)] for x, y in COMP]
for n in range(1, 7):
    out["C"][n] = [[x, s(cl(n, x))] for x in ANG]
for n in (-3, 0, 1, 2, 7, 12):
    for x, y in COMP:
        v = li(n, mp.mpc(x, y))
        out["Lin"].append([n, x, y, s(v.real), s(v.imag)])
for n in (1, 2, 7, 8):
    for x in ANG:
        out["Cln"].append([n, x, s(cl(n, x))])
        out["Sln"].append([n, x, s(cl(n, x, True))])
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../src/consumer_values.json")
json.dump(out, open(p, "w"), indent=0)
