// The long double functions of the C and the C++ library, compiled like them for another platform's long double
// (-mlong-double-128, -mlong-double-64), behind an interface that does not depend on it.
#include "Cl2.hpp"
#include "Cl3.hpp"
#include "Cl4.hpp"
#include "Cl5.hpp"
#include "Cl6.hpp"
#include "Li2.hpp"
#include "Li3.hpp"
#include "Li4.hpp"
#include "Li5.hpp"
#include "Li6.hpp"

typedef __float128 q;
typedef long double T;
typedef long double _Complex TC;
typedef std::complex<T> CT;
static_assert(__LDBL_MANT_DIG__ == 113 || __LDBL_MANT_DIG__ == 53, "another long double than that of x86");

extern "C" {
T li2l(T); T cl2l(T); T cl3l(T); T cl4l(T); T cl5l(T); T cl6l(T);
TC cli2l(TC); TC cli3l(TC); TC cli4l(TC); TC cli5l(TC); TC cli6l(TC);
}
template <T (*f)(T)> static void r(const q* in, q* out) { out[0] = f(in[0]); out[1] = 0; }
template <TC (*f)(TC)> static void cc(const q* in, q* out) { TC z; __real__ z = in[0]; __imag__ z = in[1]; z = f(z); out[0] = __real__ z; out[1] = __imag__ z; }
template <CT (*f)(const CT&)> static void cp(const q* in, q* out) { const CT z = f(CT(in[0], in[1])); out[0] = z.real(); out[1] = z.imag(); }

namespace P = polylogarithm;
struct Entry { const char* name; int kind, n; void (*f)(const q*, q*); };     // kind 0: Li of real, 1: Li of complex, 2: Cl argument
static const Entry TAB[] = {
   { "c:li2l", 0, 2, r<li2l> }, { "c:cl2l", 2, 2, r<cl2l> }, { "c:cl3l", 2, 3, r<cl3l> }, { "c:cl4l", 2, 4, r<cl4l> }, { "c:cl5l", 2, 5, r<cl5l> }, { "c:cl6l", 2, 6, r<cl6l> },
   { "c:cli2l", 1, 2, cc<cli2l> }, { "c:cli3l", 1, 3, cc<cli3l> }, { "c:cli4l", 1, 4, cc<cli4l> }, { "c:cli5l", 1, 5, cc<cli5l> }, { "c:cli6l", 1, 6, cc<cli6l> },
   { "cpp:Li2(long double)", 0, 2, r<P::Li2> }, { "cpp:Cl2(long double)", 2, 2, r<P::Cl2> }, { "cpp:Cl3(long double)", 2, 3, r<P::Cl3> }, { "cpp:Cl4(long double)", 2, 4, r<P::Cl4> },
   { "cpp:Cl5(long double)", 2, 5, r<P::Cl5> }, { "cpp:Cl6(long double)", 2, 6, r<P::Cl6> },
   { "cpp:Li2(complex<long double>)", 1, 2, cp<P::Li2> }, { "cpp:Li3(complex<long double>)", 1, 3, cp<P::Li3> }, { "cpp:Li4(complex<long double>)", 1, 4, cp<P::Li4> },
   { "cpp:Li5(complex<long double>)", 1, 5, cp<P::Li5> }, { "cpp:Li6(complex<long double>)", 1, 6, cp<P::Li6> } };

extern "C" __attribute__((visibility("default"))) int w_bits() { return __LDBL_MANT_DIG__; }
extern "C" __attribute__((visibility("default"))) const char* w_entry(int i, int* kind, int* n)
{
   if (i < 0 || i >= (int)(sizeof TAB/sizeof *TAB)) return nullptr;
   *kind = TAB[i].kind; *n = TAB[i].n; return TAB[i].name;
}
extern "C" __attribute__((visibility("default"))) void w_call(int i, const q* in, q* out) { TAB[i].f(in, out); }
