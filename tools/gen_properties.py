#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place to edit)."""
import json, os
CPP = ["src/cpp/%s.cpp" % f for f in "Li2 Li3 Li4 Li5 Li6".split()]
C = ["src/c/%s.c" % f for f in "Li2 Li3 Li4 Li5 Li6".split()]
F = ["src/fortran/%s.f90" % f for f in "Li2 Li3 Li4 Li5 Li6".split()]
CL = ["src/%s/Cl%d.%s" % (d, n, e) for d, e in (("cpp", "cpp"), ("c", "c"), ("fortran", "f90")) for n in range(2, 7)] + ["src/cpp/Cl1.cpp"]
LOG = ["src/cpp/log.hpp", "src/c/log.c", "src/fortran/log.f90"]
TAB = ["src/cpp/zeta.cpp", "src/cpp/eta.cpp", "src/cpp/factorial.cpp", "src/cpp/harmonic.cpp"]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, obs):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}})

prop("C01", "Real dilogarithm, trilogarithm and Li4 are accurate for every real x",
  "For every finite real x, the double precision real polylogarithms of order 2, 3 and 4 in C++, C and Fortran return the real part of Li_n(x) to nearly full double precision (an error of at most a few tens of rounding units relative to the value, or to the sensitivity of the value to the last digit of x, up to about a hundred for order 4). This includes arguments on, next to and far away from 0, 1/2, 4/5, 1, 2 and -1, subnormal arguments and arguments close to the largest double.",
  ["inputs"], "all finite doubles x, all three languages",
  "The tests compare about a thousand tabulated points and a few special values; an error confined to a sub-interval, to one side of a switch-over point, or to one language, lies between the samples.",
  ["src/cpp/Li2.cpp", "src/cpp/Li3.cpp", "src/cpp/Li4.cpp", "src/c/Li2.c", "src/c/Li3.c", "src/c/Li4.c", "src/fortran/Li2.f90", "src/fortran/Li3.f90", "src/fortran/Li4.f90"],
  [("transformation of the argument into one small interval and a rational approximation there", "Li2/Li3/Li4 real functions")], ["return values"])
prop("C02", "Complex Li2 to Li6 in double precision are accurate in the whole plane",
  "For every finite complex z of ordinary magnitude (no overflow of |z|), the double precision complex polylogarithms of order 2 to 6 in C++, C and Fortran return Li_n(z) to nearly full double precision, measured by the modulus of the difference relative to the modulus of the value. This holds in all quadrants, on and next to the real and imaginary axes and the unit circle, near z = 1, for tiny and for huge |z|, and on the branch cut.",
  ["inputs"], "all finite complex doubles, all three languages",
  "The tests sample tabulated grids and random points with uniform density; regions that are thin in the plane (switch-over circles, near-axis and near-one neighbourhoods, tiny and huge moduli) are barely touched.",
  CPP + C + F + LOG, [("region selection by |z|, |ln z| and Re z, inversion and reflection, Bernoulli-number series", "complex Li2..Li6")], ["return values"])
prop("C03", "Single and long double variants deliver the precision of their type",
  "For every finite argument, the single and long double precision variants of the real and complex polylogarithms (orders 2 to 6) and of the Clausen functions (orders 2 to 6), in C and C++, return the function value with an error of a few rounding units of their own type (some tens for long double, up to about 150 for the Clausen functions just above the angle pi/2). In particular a long double result is never only accurate to double precision, and a single precision result is never worse than single precision.",
  ["inputs"], "all finite arguments of float and long double functions",
  "The long double tests use the same tabulated points (given with limited digits, many converted from double), and float functions are tested on even fewer; losing a few of the extra digits in one branch stays within tolerance or is not sampled.",
  ["src/cpp/Li%d.cpp" % n for n in range(2, 7)] + C + ["src/c/Cl%d.c" % n for n in range(2, 7)] + ["src/cpp/Cl%d.cpp" % n for n in range(2, 7)],
  [("long double coefficient tables and series lengths", "each long double function"), ("float kernels", "Li2")], ["return values"])
prop("C04", "Li(n,z) is accurate for every order n >= 0 and every finite z",
  "For every integer n >= 0 and every finite complex z (no overflow of |z|), the general polylogarithm Li(n,z) returns the n-th order polylogarithm to nearly full double precision, with errors growing at most slowly with n and with ln|z|. Whenever the value itself is representable the result is finite and correct: large orders, large moduli and their combination do not produce NaN, infinity or a wrong magnitude.",
  ["inputs"], "all n >= 0, all finite complex doubles",
  "Only about twenty orders and tabulated grids with |z| of order one to ten are tested; the combination of large order and large modulus, and points just inside or outside the internal switch-over radii, are not.",
  ["src/cpp/Li.cpp"] + TAB, [("power series for small |z|, expansion in ln z near the unit circle, inversion formula for large |z|", "Li.cpp")], ["return values of Li(n,z)"])
prop("C05", "Li(n,z) is accurate for negative orders",
  "For every integer n with -170 <= n < 0 and every finite complex z != 1, the general polylogarithm Li(n,z) returns the (rational) function Li_n(z) with a relative error of at most a few hundred rounding units once the sensitivity of the value to a rounding error in z is allowed for, whenever the value and its slope are representable. For still lower orders the same holds with an error that grows at most in proportion to |n|.",
  ["inputs"], "all n < 0, all finite complex doubles except 1",
  "The tests use a handful of negative orders with tolerances up to 1e-9 and have the lowest orders commented out; accuracy loss from cancellation grows exponentially with |n| and depends on the argument of z.",
  ["src/cpp/Li.cpp", "src/cpp/zeta.cpp", "src/cpp/factorial.cpp"], [("power series, expansion in ln z, square-root duplication, inversion", "Li.cpp")], ["return values of Li(n,z)"])
prop("C06", "Clausen functions Cl1 to Cl6 are accurate for every real angle",
  "For every finite real x, the double precision Clausen functions of order 1 to 6 in C++ and of order 2 to 6 in C and Fortran return the value of Cl_n(x) with an error of a few rounding units relative to the value plus a few rounding units of the angle x times the slope of the function. This includes angles next to multiples of pi and pi/2, tiny and subnormal angles, negative angles and angles far outside [0, 2 pi).",
  ["inputs"], "all finite doubles x, all three languages",
  "The tests tabulate points mostly in [0, 2 pi]; large angles, angles within a few units in the last place of multiples of pi and the switch-over at pi/2 are sampled by a handful of values.",
  CL, [("reduction of the angle to [0, pi] with sign, rational approximations on two sub-intervals", "Cl2..Cl6")], ["return values"])
prop("C07", "Cl(n,x) is accurate for every order n >= 1 and every real angle",
  "For every integer n >= 1 and every finite real x, the general Clausen function Cl(n,x) returns the standard Clausen function of order n with an error of a few rounding units (below about a hundred) relative to the value plus a few rounding errors of the angle times the slope. For n < 1 it returns NaN.",
  ["inputs"], "all n, all finite doubles x",
  "A few orders at tabulated angles are tested; every order up to nine has its own coefficients and sign pattern and higher orders use a truncated series whose length depends on n.",
  ["src/cpp/Cl.cpp"], [("closed formula with pre-computed coefficients up to order 9, truncated Fourier series above", "Cl.cpp")], ["return values of Cl(n,x)"])
prop("C08", "Sl(n,x) is accurate for every order n >= 1 and every real angle",
  "For every integer n >= 1 and every finite real x, the Glaisher-Clausen function Sl(n,x) returns its value with an error of a few rounding units relative to the value plus the angle's rounding error times the slope, with Sl(1,0) = 0. For n < 1 it returns NaN.",
  ["inputs"], "all n, all finite doubles x",
  "Each of the orders up to 25 is a polynomial with its own 40-digit coefficients and is tested at a few angles; a wrong high-order coefficient shows only near x = pi.",
  ["src/cpp/Sl.cpp"], [("one Bernoulli-type polynomial per order up to 25, truncated Fourier series above", "Sl.cpp")], ["return values of Sl(n,x)"])
prop("C09", "Clausen functions are periodic, have exact parity and reflect about pi",
  "For every order and every finite angle, Cl of even order and Sl of odd order are odd functions of x and Cl of odd order and Sl of even order are even functions of x, exactly in every bit. Adding multiples of 2 pi to the angle or reflecting it about pi changes the result only by the effect of rounding the angle and by the sign of the parity, in all three languages and precisions.",
  ["inputs"], "all orders, all finite angles and shifts by 2 pi k, all languages and precisions",
  "Tests check parity and periodicity for a few angles of a few functions; these are relations over all pairs of arguments.",
  CL + ["src/cpp/Cl.cpp", "src/cpp/Sl.cpp"], [("range reduction with sign bookkeeping", "all Clausen functions")], ["pairs of return values"])
prop("C10", "Branch cut convention and mirror symmetry of the complex polylogarithms",
  "For z on the real axis with x > 1 and either sign of a zero imaginary part, every complex polylogarithm of order n >= 1 returns the limit from below the cut, i.e. an imaginary part of -pi (ln x)^(n-1)/(n-1)!, and is continuous there from below and jumps by twice that amount from above. For x <= 1 the imaginary part on the axis vanishes up to rounding, being exactly zero for the dedicated orders 2 to 6 and carrying the sign of the input's zero for order 2 in all precisions and orders 3 and 4 in double precision. Away from the real axis, conjugating the argument conjugates the result.",
  ["inputs"], "all z on and next to the real axis, all conjugate pairs, all orders n >= 1, languages and precisions",
  "Tests check the sign of zero and the side of the cut at a few points per function; the convention has to hold for each branch of each implementation.",
  CPP + C + F + LOG + ["src/cpp/Li.cpp"], [("explicit real-axis branches, logarithms that ignore the sign of a zero imaginary part", "all complex functions")], ["return values on both sides of the cut, signs of zeros"])
prop("C11", "Special values, NaN, infinities and extreme arguments behave as documented",
  "At 0, 1 and -1 every polylogarithm returns its exact special value correctly rounded to within one or two units (the argument itself at zero including the sign of zero, zeta(n) at 1, minus the Dirichlet eta value at -1, infinity at 1 for orders below 1 or at the pole of order 1), and Clausen functions return 0, zeta(n) or minus the eta value at multiples of pi. A NaN argument always gives a NaN result and never a finite one; infinite real arguments give the limit (minus infinity for real polylogarithms, -1 or 0 for Li(0,z) and negative orders), infinite angles give NaN. For every other finite argument up to the largest and down to the smallest subnormal number the result is finite whenever the true value is, and polylogarithms of huge arguments follow their asymptotic value.",
  ["inputs"], "all special, non-finite and extreme-magnitude arguments, all functions, all orders",
  "Tests check selected special values in double precision of some functions; the full matrix of function, precision, language and special argument is not covered.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"], [("explicit special-case branches", "all functions")], ["return values, signs of zeros, NaN/inf classification"])
prop("C12", "The C++, C and Fortran libraries agree with each other",
  "For every argument, corresponding functions of the C++, C and Fortran interfaces (same order, same precision, real, complex and Clausen) return results that agree to within a few rounding units, including the same branch on the cut, the same treatment of NaN and of zero, and the same small-argument accuracy. None of the interfaces is a degraded version of another.",
  ["inputs", "configurations"], "all finite arguments and NaN, all triples/pairs of corresponding functions",
  "The tests compare languages at the tabulated points only; the three code bases duplicate every table and branch, so they can drift apart anywhere.",
  CPP + C + F + CL + LOG, [("three hand-written copies of each algorithm", "src/cpp, src/c, src/fortran")], ["pairs of return values"])
prop("C13", "General-order, complex and real entry points are mutually consistent",
  "Li(n,z) for n = 2..6 equals the dedicated complex functions and Cl(n,x) for n = 1..6 equals the dedicated Clausen functions (including the sign of a zero imaginary part), each complex polylogarithm restricted to the real axis equals the real polylogarithm of the same order, and float, double and long double variants agree to the precision of the less precise one. The Clausen functions equal the imaginary or real parts of the polylogarithm on the unit circle, Cl_n and Sl_n together forming Li_n(e^{ix}).",
  ["inputs"], "all arguments accepted by both members of each pair",
  "Tests check these relations at a few tabulated points; they are relations over the whole domain.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"], [("dispatch on the order; real-axis shortcuts", "Li.cpp, Cl.cpp, complex functions")], ["pairs of return values"])
prop("C14", "No undefined behaviour or memory error for any argument and any order",
  "No call of any public function, with any argument bit pattern (including NaN, infinities, subnormals and the largest values) and any 64-bit order (including the extreme negative and positive ones), performs an out-of-bounds or uninitialised read, an integer overflow, an invalid conversion or any other undefined behaviour. Functions declared not to throw never terminate the program.",
  ["inputs"], "all bit patterns of the arguments, all int64 orders, all functions of the three libraries",
  "The test programs are built without sanitizers and use orders and arguments of moderate size; a table index or signed overflow shows only at specific orders.",
  CPP + C + F + CL + LOG + TAB + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"], [("bounds checks before every table access, loop limits", "zeta, eta, factorial, Cl, Li")], ["sanitizer reports, valgrind/pattern-initialised results"])
prop("C15", "Functions are pure: arguments, FP environment and later results untouched",
  "Calling any function leaves the caller's argument variables unchanged (also when passed by reference from Fortran, where a literal or constant actual argument is allowed), leaves the floating-point rounding mode, precision control, flush-to-zero setting and trap mask unchanged, leaves errno alone or at most sets a math error, and writes no global state, prints nothing and keeps no memory. The result depends only on the argument values: any sequence of earlier calls, in any order, gives bit-identical results.",
  ["inputs", "histories"], "all call sequences over all functions and arguments",
  "Each test evaluates every call once and looks only at the return value; argument clobbering, leaked environment changes and history dependence are invisible to it.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"], [("no static mutable state; local copies of arguments", "all functions")], ["argument memory, FP control registers, repeated results"])
prop("C16", "Every call terminates after a bounded amount of work",
  "For every order and every argument, each function returns after a bounded amount of work: no call executes more than a fixed, small number of instructions (far below a second of CPU time), independent of how large the order is, how close the argument is to a switch-over circle, or whether it is NaN, infinite, subnormal or huge. Recursion depth and loop counts stay bounded as well.",
  ["inputs"], "all int64 orders, all argument bit patterns",
  "Tests use small orders and have no work limit; a loop whose trip count grows with the order or whose stopping test fails for particular arguments is not seen.",
  ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"], [("convergence tests of the series loops; recursion by square roots", "Li.cpp, Cl.cpp, Sl.cpp")], ["CPU work per call"])
prop("C17", "All functions may be called concurrently from any number of threads",
  "Any number of threads may call any mix of the functions of the three libraries at the same time, without synchronisation. There is no data race and each call returns bit for bit the result it returns in a single-threaded program, including the very first calls of the process.",
  ["schedules", "histories"], "all interleavings of concurrent calls, including first use",
  "All tests are single-threaded.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"] + TAB, [("tables are constant or local; no caches", "all functions")], ["ThreadSanitizer reports, per-thread results"])
prop("C18", "Zeta, eta, inverse factorial and harmonic number helpers are exact for all n",
  "For every 64-bit integer n the helper functions for the Riemann zeta function, the negated Dirichlet eta function, the inverse factorial and the harmonic numbers return the correctly rounded value to within a few units in the last place, including exact zeros at negative even integers, the correct sign of infinity where the value overflows a double, and NaN where undefined. No table boundary is off by one.",
  ["inputs"], "all int64 n",
  "The tests cover selected n around the tables; values beyond the tables and at the extremes of the integer range are not covered.",
  TAB, [("tables of constants with range checks, asymptotic formulas beyond", "zeta.cpp, eta.cpp, factorial.cpp, harmonic.cpp")], ["return values"])
prop("C19", "Functional identities of the polylogarithms hold between returned values",
  "The values returned for related arguments satisfy the exact functional equations of the polylogarithm within rounding: inversion z -> 1/z, duplication Li_n(z) + Li_n(-z) = 2^(1-n) Li_n(z^2) and its m-fold generalisation over roots of unity, Euler's and Landen's reflection formulas of the dilogarithm, the duplication formula of the Clausen and Glaisher functions, and z d/dz Li_n(z) = Li_(n-1)(z) as a finite difference. This holds for every function, order and pair of arguments wherever they fall relative to the internal regions.",
  ["inputs"], "all tuples of related arguments, all orders, languages and precisions",
  "Unit tests compare single values with tables; identities tie together results from different internal regions and need no table.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"], [("region-wise algorithms whose results must match up", "all functions")], ["tuples of return values"])
prop("C20", "Results do not depend on compiler, optimisation level or build options",
  "Built with any supported compiler (gcc, clang, gfortran), optimisation level from -O0 to -Ofast/-ffast-math, C++11 to C++20 and C11 to C17, shared or static, with signed or unsigned char, and run on a processor with or without fused multiply-add (for which the C library selects other elementary functions), the libraries compile and every function keeps its accuracy on ordinary finite arguments (nearly full precision, with an allowance for fast-math). Builds without fast-math also keep their treatment of signed zeros, NaN and infinities.",
  ["configurations", "inputs"], "build configurations times arguments",
  "The test suite is run in one configuration (optimised gcc build); an uninitialised variable, a reliance on excess precision or evaluation order, or a NaN comparison shows only in others.",
  ["CMakeLists.txt", "src/cpp/CMakeLists.txt", "src/c/CMakeLists.txt", "src/fortran/CMakeLists.txt"] + CPP + C + F, [("portable C11/C++11/Fortran code", "all sources")], ["return values per build"])
prop("C21", "The installed package can be used from C, C++ and Fortran programs",
  "After installation, each public header can be included alone and together with all the others, any number of times, from C and from C++ (C headers) or C++ (C++ headers) and the Fortran headers from Fortran, and every function they declare is provided by the installed library of that language with the declared signature and linkage. Small programs using only the installed files compile, link and compute correct values, and linking all three libraries into one program causes no clash.",
  ["configurations", "programs"], "all public headers and declared functions, all consumer languages",
  "Tests are built inside the source tree with its include paths and link everything together.",
  ["CMakeLists.txt", "src/CMakeLists.txt", "src/cpp/CMakeLists.txt", "src/c/CMakeLists.txt", "src/fortran/CMakeLists.txt", "src/version.h"], [("PUBLIC_HEADER lists and install rules", "CMake files"), ("extern \"C\" guards", "src/c/*.h")], ["compile, link and run results of consumers"])
prop("C22", "No jumps at internal switch-over points; monotone where the function is",
  "Moving an argument by one unit in the last place never changes a result by more than the function's slope and a few tens of rounding units account for, wherever the argument lies (the branch cut excepted): the pieces of every implementation join continuously. Where the true function is monotone over a step much larger than rounding, so are the returned values.",
  ["inputs"], "all pairs of neighbouring arguments, all functions, orders and precisions",
  "Tests do not evaluate neighbouring arguments; a mismatch between two branches is a jump at one point that tabulated points miss.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"], [("comparison of the argument against fixed thresholds", "all functions")], ["differences of neighbouring return values"])
prop("C23", "Tiny arguments keep full relative accuracy and never lose a component",
  "For |z| far below one, every polylogarithm of every order returns z(1 + O(z)) with full relative accuracy in modulus, down to the subnormal range, in all languages and precisions; in particular the result is never zero for a non-zero argument, and real or imaginary parts that are much smaller than the other keep their leading digits. Clausen functions that vanish at zero keep full relative accuracy for tiny angles.",
  ["inputs"], "all arguments with |z| << 1, all orders n >= 1, all functions",
  "Tabulated points have |z| of order one; the loss of relative accuracy from forming 1 - z is invisible there and within absolute tolerances.",
  CPP + C + F + LOG + CL + ["src/cpp/Li.cpp"], [("log(1+z) evaluated without cancellation", "log helpers and their uses"), ("small-argument shortcuts", "complex Li2")], ["return values"])
prop("C24", "Complex logarithm helpers are accurate near 0 and 1 and on the cut",
  "The complex log(1+z) helpers of C, C++ and Fortran return the principal logarithm of 1+z with full relative accuracy in modulus for every finite z, including tiny z and z near -1 (up to the conditioning of the sum), and the helper that ignores the sign of a zero imaginary part returns the logarithm with imaginary part +pi on the negative real axis for both signs of zero and 0 on the positive one. On the cut of log(1+z) itself the C and C++ helpers follow the sign of a zero imaginary part. All helpers are mirror-symmetric away from the real axis.",
  ["inputs"], "all finite complex arguments, double and long double, three languages",
  "Tests evaluate a few dozen points of the C++ helpers only.",
  LOG, [("correction factor z/(u-1)", "log1p helpers"), ("explicit real-axis branch", "pos_log helpers")], ["return values"])
prop("C25", "No spurious floating-point exceptions for ordinary arguments",
  "When called with finite arguments of ordinary magnitude (each part zero or between 1e-150 and 1e150; correspondingly less for float and more for long double), every polylogarithm and Clausen function of the three libraries, for every order n >= -100, signals none of the floating-point exceptions invalid, division by zero and (orders up to 1000) overflow if its result is finite (built with gcc and gfortran without fast-math). A program that traps these exceptions (feenableexcept, gfortran -ffpe-trap=invalid,zero,overflow) therefore runs undisturbed, and a program that tests the status flags afterwards is not misled. Underflow and inexact may be signalled.",
  ["inputs"], "all finite arguments of ordinary magnitude, all functions, orders n >= -100",
  "The tests look at returned values only; a logarithm of zero or an infinite intermediate value that is computed and then discarded leaves no trace in the value.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"] + LOG, [("special points are handled before the general formulas are evaluated", "all functions")], ["status flags after each call"])
prop("C26", "Accuracy and termination do not depend on the rounding mode",
  "In a program that has selected rounding upward, downward or towards zero, or that flushes subnormal numbers to zero (as programs linked with -ffast-math do), every function still returns: for finite arguments whose parts are zero or well inside the range of normal numbers, the polylogarithms and Clausen functions of the three libraries (any order n >= 0; negative orders down to -20 away from z = 1) keep nearly full precision, with an error of at most about ten times the one admitted in the default mode; and for all arguments and all orders n >= -100 the calls end after a bounded amount of work.",
  ["inputs", "configurations"], "all arguments and orders times the rounding modes and the flush-to-zero mode",
  "The tests run in the default floating-point environment only.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"] + LOG, [("series end when a term no longer contributes", "Li.cpp"), ("log(1+z) evaluated without cancellation", "log helpers, real functions")], ["return values and end of each call in four modes"])
prop("C27", "Each source file can be taken out of the package and used on its own",
  "The implementation file of each function family (Li2 to Li6, Cl1 to Cl6, Sl in C++, C and Fortran) compiles, links and computes correct values in another project together with nothing but its own header, the helper files of its language that implement no public function (log, horner and the like), and the standard libraries. The C++ functions of any order Cl and Li need in addition only the files of the fixed orders of the same kind.",
  ["programs", "configurations"], "all implementation files of the three languages, compilers and standards",
  "The tests link the complete libraries, where a missing declaration or a dependency on another function's file cannot be seen.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"] + LOG, [("one function family per file, shared code in helper files", "src/c, src/cpp, src/fortran")], ["build and results of programs made of the extracted files"])
prop("C28", "Functions may be interrupted anywhere and called from signal handlers",
  "A call of any function may be interrupted at any instruction by a signal handler that calls the same or any other function of the three libraries: both calls return, bit for bit, what they return undisturbed, also when the interrupted call is the first one of the process, and neither deadlocks nor crashes. A call that is abandoned at any instruction (siglongjmp out of the handler) leaves all later results as they were. No call needs more stack than an alternate signal stack of 32 KiB has.",
  ["interruption points", "inputs"], "all functions, orders and arguments times all instructions of a call and all calls made there",
  "The tests never interrupt a call; memory shared between calls (static or thread-local buffers, caches, locks, tables filled on first use) does not change results of calls that follow each other, and thread-local memory does not show with threads either.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"] + LOG, [("no mutable static or thread-local data, no locks", "all functions")], ["results of interrupted, interrupting and later calls; stack of the handler"])
prop("C29", "Functions can be called at any moment of a process's life and in any setting",
  "Every function returns bit for bit what it returns when called from main(), also when it is called before main (initialisers of static objects, constructors, the very first functions of a process), after main (destructors of static objects, atexit handlers, threads still running while the process exits), while a thread ends (destructors of thread-local data), in a child forked while other threads are in calls, in a library that is loaded at run time, loaded again after it was closed, or loaded twice into separate name spaces, in threads older than the loaded library or with a stack of 32 KiB only, in any locale and environment. It needs nothing of its surroundings: it works without memory to allocate, without open files, and in a process that may not make system calls.",
  ["moments of the process's life", "surroundings", "inputs"], "all functions, orders and arguments times all moments and surroundings listed",
  "The tests call the functions from the main thread of a healthy process after all static objects have been created. A table created at start-up (std::vector, a constructor function), a lock, a cache or an allocation changes nothing there.",
  CPP + C + F + CL + ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"] + LOG, [("tables are constants: no dynamic initialisation, no allocation, no locks", "all functions")], ["results of calls in child processes and their exit status"])
prop("C30", "The long double functions deliver the precision of each platform's type",
  "long double is not the same type everywhere. Where it is IEEE quadruple precision (113-bit mantissa: gcc and clang with -mlong-double-128, aarch64, riscv64 and others), the long double functions of the C and the C++ library return Li_2 to Li_6 (complex), Li_2 (real) and Cl_2 to quadruple precision, i.e. with a relative error of a few tens of units of 2^-112 (relative to the modulus; of the real Li_2 also relative to the size of its terms), and Cl_3 to Cl_6 at least with the precision of the 80-bit type of x86 (2^-64). Where it is plain double (-mlong-double-64), they return double precision. In both cases they do so on the whole domain, for tiny and huge arguments and on both sides of the axes, return NaN for NaN and for infinite angles, zero with its sign for zero, no imaginary part on the real axis below 1 and the limit from below on the cut, and run without undefined behaviour and invalid memory accesses.",
  ["inputs", "configurations"], "all arguments (quadruple and double long double), all long double functions of C and C++",
  "The tests run with one type, on x86 the 80-bit one: the coefficients and series terms that exist for quadruple precision only are not even compiled there.",
  CPP + C + CL + LOG, [("tables and number of terms depend on the precision of long double", "Li2 to Li6 in C and C++"), ("constants with 33 and more digits", "all long double functions")], ["return values of the libraries compiled for both types"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
