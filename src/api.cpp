#include "api.hpp"
#include "Cl.hpp"
#include "Cl1.hpp"
#include "Cl2.hpp"
#include "Cl3.hpp"
#include "Cl4.hpp"
#include "Cl5.hpp"
#include "Cl6.hpp"
#include "Li.hpp"
#include "Li2.hpp"
#include "Li3.hpp"
#include "Li4.hpp"
#include "Li5.hpp"
#include "Li6.hpp"
#include "Sl.hpp"
#include <complex>

namespace P = polylogarithm;

#define FN_C(f, n, k, p) extern "C" void c_##f(const long double*, long double*);
#define FN_F(f, n, k) extern "C" void f_##f(void*, void*);
#define FN_P(f, n, k, p)
#include "api_table.inc"
#undef FN_C
#undef FN_F
#undef FN_P

template <Prec p> struct TT; template <> struct TT<F> { typedef float t; }; template <> struct TT<D> { typedef double t; };
template <> struct TT<L> { typedef long double t; };

template <Kind k> struct PC {
   template <class T, class Fun> static void run(Fun f, const long double* in, long double* out) { out[0] = f((T)in[0]); out[1] = 0; }
};
template <> struct PC<Z> {
   template <class T, class Fun> static void run(Fun f, const long double* in, long double* out)
   { const std::complex<T> r = f(std::complex<T>((T)in[0], (T)in[1])); out[0] = r.real(); out[1] = r.imag(); }
};
template <Kind k> struct FC {
   static void run(void (*f)(void*, void*), const long double* in, long double* out) { double x = in[0], y; f(&x, &y); out[0] = y; out[1] = 0; }
};
template <> struct FC<Z> {
   static void run(void (*f)(void*, void*), const long double* in, long double* out)
   { double x[2] = { (double)in[0], (double)in[1] }, y[2]; f(x, y); out[0] = y[0]; out[1] = y[1]; }
};

static const Kind C = C_;
static const char* PN[] = { "float", "double", "long double" };

static std::vector<Fn> make()
{
   std::vector<Fn> v;
#define FN_C(f, n, k, p) v.push_back(Fn{ "c:" #f, CC, k, p, n, [](int64_t, const long double* in, long double* out) { c_##f(in, out); } });
#define FN_F(f, n, k) v.push_back(Fn{ "f:" #f, FTN, k, D, n, [](int64_t, const long double* in, long double* out) { FC<k>::run(f_##f, in, out); } });
#define FN_P(f, n, k, p) v.push_back(Fn{ std::string("cpp:" #f "(") + (k == Z ? std::string("complex<") + PN[p] + ">" : PN[p]) + ")", CPP, k, p, n, \
   [](int64_t, const long double* in, long double* out) { typedef TT<p>::t T; PC<k>::run<T>([](auto x) { return P::f(x); }, in, out); } });
#include "api_table.inc"
   v.push_back(Fn{ "cpp:Li(n,z)", CPP, Z, D, GENERIC, [](int64_t n, const long double* in, long double* out) {
      const std::complex<double> r = P::Li(n, std::complex<double>(in[0], in[1])); out[0] = r.real(); out[1] = r.imag(); } });
   v.push_back(Fn{ "cpp:Cl(n,x)", CPP, C_, D, GENERIC, [](int64_t n, const long double* in, long double* out) { out[0] = P::Cl(n, (double)in[0]); out[1] = 0; } });
   v.push_back(Fn{ "cpp:Sl(n,x)", CPP, S_, D, GENERIC, [](int64_t n, const long double* in, long double* out) { out[0] = P::Sl(n, (double)in[0]); out[1] = 0; } });
   return v;
}

const std::vector<Fn>& api() { static const std::vector<Fn> v = make(); return v; }
const Fn* find_fn(const std::string& s) { for (const Fn& f : api()) if (f.name == s) return &f; return nullptr; }
const char* lang_name(Lang l) { return l == CPP ? "cpp" : l == CC ? "c" : "fortran"; }
double eps_of(Prec p) { return p == F ? 1.1920929e-07 : p == D ? 2.220446049250313e-16 : 1.0842021724855044e-19; }
