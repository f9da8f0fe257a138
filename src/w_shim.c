/* The elementary functions of a platform whose long double is IEEE quadruple (-mlong-double-128) or plain double
   (-mlong-double-64), for the objects of one shared library: hidden, so that no other code sees them. */
#if __LDBL_MANT_DIG__ == 113
#include <quadmath.h>
#define N(f) f##q
#define CN(f) f##q
typedef long double q; typedef long double _Complex c;
#elif __LDBL_MANT_DIG__ == 53
#include <complex.h>
#include <math.h>
#define N(f) f
#define CN(f) f
typedef long double q; typedef long double _Complex c;
#else
#error "w_shim.c: neither quadruple nor double"
#endif
#define H __attribute__((visibility("hidden")))
#define F1(f) H q f##l(q x) { return (q)N(f)(x); }
#define F2(f) H q f##l(q x, q y) { return (q)N(f)(x, y); }
#define FC(f) H c f##l(c z) { return (c)CN(f)(z); }
#define FI(t, f) H t f##l(q x) { return N(f)(x); }
F1(acos) F1(acosh) F1(asin) F1(asinh) F1(atan) F1(atanh) F1(cbrt) F1(ceil) F1(cosh) F1(cos) F1(erf) F1(erfc) F1(exp2) F1(exp) F1(expm1) F1(fabs)
F1(floor) F1(lgamma) F1(logb) F1(log) F1(log10) F1(log2) F1(log1p) F1(nearbyint) F1(rint) F1(round) F1(sinh) F1(sin) F1(sqrt) F1(tan) F1(tanh) F1(tgamma) F1(trunc)
F2(atan2) F2(copysign) F2(fdim) F2(fmax) F2(fmin) F2(fmod) F2(hypot) F2(nextafter) F2(pow) F2(remainder)
FI(int, ilogb) FI(long, lrint) FI(long, lround) FI(long long, llrint) FI(long long, llround)
FC(cacos) FC(cacosh) FC(casin) FC(casinh) FC(catan) FC(catanh) FC(ccos) FC(ccosh) FC(cexp) FC(clog) FC(cproj) FC(csin) FC(csinh) FC(csqrt) FC(ctan) FC(ctanh)
H q cabsl(c z) { return N(cabs)(z); }
H q cargl(c z) { return N(carg)(z); }
H q creall(c z) { return __real__ z; }
H q cimagl(c z) { return __imag__ z; }
H c conjl(c z) { return ~z; }
H c cpowl(c z, c w) { return CN(cpow)(z, w); }
H q fmal(q x, q y, q z) { return N(fma)(x, y, z); }
H q frexpl(q x, int* e) { return N(frexp)(x, e); }
H q ldexpl(q x, int e) { return N(ldexp)(x, e); }
H q scalbnl(q x, int e) { return N(scalbn)(x, e); }
H q scalblnl(q x, long e) { return N(scalbln)(x, e); }
H q modfl(q x, q* y) { q t = N(trunc)(x); *y = t; return N(copysign)(__builtin_isinf(x) ? (q)0 : x - t, x); }
H q nanl(const char* s) { return N(nan)(s); }
H q exp10l(q x) { return N(pow)((q)10, x); }
H q remquol(q x, q y, int* k) { return N(remquo)(x, y, k); }
H void sincosl(q x, q* s, q* t) { *s = N(sin)(x); *t = N(cos)(x); }
H int __isnanl(q x) { return __builtin_isnan(x); }
H int __isinfl(q x) { return __builtin_isinf_sign(x); }
H int __finitel(q x) { return __builtin_isfinite(x); }
H int __signbitl(q x) { return __builtin_signbit(x) != 0; }
H int __fpclassifyl(q x) { return __builtin_fpclassify(0, 1, 4, 3, 2, x); }
