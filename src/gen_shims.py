#!/usr/bin/env python3
"""Generates the C and Fortran call shims and the function table from one list
of the public API (the installed headers). Output goes to the directory argv[1]."""
import sys, os
out = sys.argv[1]
os.makedirs(out, exist_ok=True)

C = []   # (id, order, kind, prec, c function)
for n, names in ((2, "li2f li2 li2l"), (3, "li3"), (4, "li4")):
    for f in names.split():
        C.append((f, n, "R", {"f": "F", "l": "L"}.get(f[3:], "D")))
for n in range(2, 7):
    for s in ("f", "", "l") if n == 2 else ("", "l"):
        C.append(("cli%d%s" % (n, s), n, "Z", {"f": "F", "l": "L"}.get(s, "D")))
for n in range(2, 7):
    for s in ("", "l"):
        C.append(("cl%d%s" % (n, s), n, "C", {"l": "L"}.get(s, "D")))
CT = {"F": "float", "D": "double", "L": "long double"}

with open(out + "/shim_c.c", "w") as f:
    f.write('/* generated: calls through the public C headers */\n#include <complex.h>\n')
    for n in range(2, 7):
        f.write('#include "Cl%d.h"\n#include "Li%d.h"\n' % (n, n))
    f.write('#ifndef CMPLX\n#define CMPLX(a,b) __builtin_complex((double)(a),(double)(b))\n#endif\n')
    for name, n, k, p in C:
        t = CT[p]
        if k == "Z":
            f.write("void c_%s(const long double* in, long double* out) { %s _Complex z = __builtin_complex((%s)in[0], (%s)in[1]); "
                    "%s _Complex r = %s(z); out[0] = __real__ r; out[1] = __imag__ r; }\n" % (name, t, t, t, t, name))
            f.write("void v_%s(%s* z) { %s _Complex r = %s(__builtin_complex(z[0], z[1])); z[0] = __real__ r; z[1] = __imag__ r; }\n" % (name, t, t, name))
        else:
            f.write("void c_%s(const long double* in, long double* out) { out[0] = %s((%s)in[0]); out[1] = 0; }\n" % (name, name, t))
            f.write("void v_%s(%s* z) { z[0] = %s(z[0]); }\n" % (name, t, name))

F = [("dli%d" % n, n, "R") for n in (2, 3, 4)] + [("cdli%d" % n, n, "Z") for n in range(2, 7)] + [("dcl%d" % n, n, "C") for n in range(2, 7)]
with open(out + "/shim_f.f90", "w") as f:
    f.write("! generated: calls through the public .fh headers; the argument is passed on by reference\n")
    for name, n, k in F:
        t = "complex(c_double_complex)" if k == "Z" else "real(c_double)"
        h = "Cl%d.fh" % n if k == "C" else "Li%d.fh" % n
        f.write("subroutine f_%s(x, y) bind(C)\n  use, intrinsic :: iso_c_binding\n  implicit none\n"
                "  %s :: x\n  %s :: y\n  include '%s'\n  y = %s(x)\nend subroutine\n" % (name, t, t, h, name))

tab = []
with open(out + "/api_table.inc", "w") as f:
    for name, n, k, p in C:
        f.write("FN_C(%s, %d, %s, %s)\n" % (name, n, k, p))
    for name, n, k in F:
        f.write("FN_F(%s, %d, %s)\n" % (name, n, k))
    for fn, n, k, p in ([("Li2", 2, "R", p) for p in "FDL"] + [("Li3", 3, "R", "D"), ("Li4", 4, "R", "D")]
                        + [("Li2", 2, "Z", p) for p in "FDL"] + [("Li%d" % n, n, "Z", p) for n in range(3, 7) for p in "DL"]
                        + [("Cl1", 1, "C", "D")] + [("Cl%d" % n, n, "C", p) for n in range(2, 7) for p in "DL"]):
        f.write("FN_P(%s, %d, %s, %s)\n" % (fn, n, k, p))
