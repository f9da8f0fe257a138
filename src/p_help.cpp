// Helper functions: zeta, eta, inverse factorial, harmonic numbers (C18) and complex logarithms (C24).
#include "core.hpp"
#include "eta.hpp"
#include "factorial.hpp"
#include "harmonic.hpp"
#include "zeta.hpp"
#include <cfenv>
#ifdef HAVE_LOG_HPP
#include "log.hpp"
#endif

using ref::q;

// ------------------------------------------------------------------------------------------ C18
struct Helper { const char* name; double (*f)(int64_t); q (*r)(int64_t); };

// true values where they are representable; +-inf or 0 by asymptotics beyond
static q r_zeta(int64_t n)
{
   if (n < 0 && n % 2 == 0) return 0;
   if (n < -1500) return (-n) % 4 == 1 ? -HUGE_VALQ : HUGE_VALQ;      // zeta(-1) < 0, zeta(-3) > 0, ...
   if (n > 200) return 1;
   return ref::zeta<q>(n);
}
static q r_eta(int64_t n)
{
   if (n < 0 && n % 2 == 0) return 0;
   if (n < -1500) return (-n) % 4 == 1 ? -HUGE_VALQ : HUGE_VALQ;      // -eta(-1) = -1/4, -eta(-3) = 1/8, ...
   if (n > 200) return -1;
   return -ref::eta<q>(n);
}
static q r_fac(int64_t n) { return n < 0 ? nanq("") : n > 1000 ? 0 : ref::fact_inv<q>(n); }
static q r_harm(int64_t n) { return ref::harmonic<q>(n); }

static void judge(const Helper& h, int64_t n, Acc& a)
{
   const double v = h.f(n); const q t = h.r(n);
   a.evals++; a.count(std::string("values: ") + h.name);
   ld in[2] = { (ld)n, 0 }; a.hash(nullptr, n ^ (int64_t)(h.name[0]*0x9e3779b97f4a7c15ull), in);
   const char* bad = nullptr; double u = 0;
   if (t != t) { if (v == v) bad = "NaN expected"; }
   else if (t == 0) { if (v != 0) bad = "zero expected"; a.count("exact zeros and underflows"); }
   else if (fabsq(t) > (q)DBL_MAX*(1 + 0x1p-54Q)) { if (!(std::isinf(v) && (v > 0) == (t > 0))) bad = "infinity of this sign expected"; a.count("overflows"); }
   else {
      const double d = (double)t; double ulp = std::fabs(d) < DBL_MIN ? 0x1p-1074 : std::ldexp(1.0, std::ilogb(d) - 52);
      u = (double)(fabsq((q)v - t)/(q)ulp);
      a.max(h.name, u/4); if (!(u <= 4)) bad = "wrong value";
   }
   if (bad) violation_raw(std::string("helper ") + h.name, std::string(h.name) + "(" + std::to_string(n) + ") returns " + fmt(v) + ", true value " + fmt((ld)t) + " (" + bad + (u > 0 ? ", " + std::to_string(u) + " ulp" : "") + ")", "null");
}

static void c18()
{
   static const Helper H[] = { { "zeta", polylogarithm::zeta, r_zeta }, { "neg_eta", polylogarithm::neg_eta, r_eta }, { "inv_fac", polylogarithm::inv_fac, r_fac }, { "harmonic", polylogarithm::harmonic, r_harm } };
   guard_phase("helpers, all small n");
   parallel(4*24, [&](long c, Acc& a) { const Helper& h = H[c % 4]; const int64_t lo = -1200 + 100*(c/4); for (int64_t n = lo; n < lo + 100; ++n) judge(h, n, a); });
   guard_phase("helpers, all of 64 bits");
   parallel(4*64, [&](long c, Acc& a) {
      const Helper& h = H[c % 4]; Rng r(cfg.seed*977 + c, 18);
      for (int64_t n : { INT64_MIN, INT64_MIN + 1, INT64_MIN + 2, INT64_MIN + 3, INT64_MAX, INT64_MAX - 1, INT64_MAX - 2, (int64_t)INT32_MIN, (int64_t)INT32_MAX }) { judge(h, n, a); }
      for (int i = 0; i < cases(3000); ++i) judge(h, gen_order_any(r), a);
      for (int i = 0; i < cases(1000); ++i) { const int b = r.below(63); judge(h, ((int64_t)1 << b) + (int64_t)r.below(9) - 4, a); judge(h, -((int64_t)1 << b) + (int64_t)r.below(9) - 4, a); }
      for (int64_t d : cfg.idict) for (int k = -2; k <= 2; ++k) { judge(h, d + k, a); judge(h, -d + k, a); }
   });
   guard_phase("helpers, in sequence");       // the value does not depend on what was asked before
   parallel(8, [&](long c, Acc& a) { Rng r(cfg.seed*31 + c, 19); for (int i = 0; i < 4000; ++i) judge(H[r.below(4)], (int64_t)r.below(600) - 300, a); });
}

// ------------------------------------------------------------------------------------------ C24
extern "C" {
__complex__ float clog1pf(__complex__ float) __attribute__((weak));
__complex__ double clog1p(__complex__ double) __attribute__((weak));
__complex__ long double clog1pl(__complex__ long double) __attribute__((weak));
__complex__ double pos_clog(__complex__ double) __attribute__((weak));
__complex__ long double pos_clogl(__complex__ long double) __attribute__((weak));
__complex__ double cdlog1p_(double*) __attribute__((weak));
__complex__ double pos_cdlog_(double*) __attribute__((weak));
}

#define CX(n, T) static __complex__ T n(const ld* in) { __complex__ T z; __real__ z = (T)in[0]; __imag__ z = (T)in[1]; return z; }
CX(cxf, float) CX(cxd, double) CX(cxl, long double)
template <class R> static void put(R r, ld* out) { out[0] = __real__ r; out[1] = __imag__ r; }

struct LogFn { const char* name; Prec prec; bool plus1; void (*f)(const ld*, ld*); };

static std::vector<LogFn> logs()
{
   std::vector<LogFn> v;
#ifdef HAVE_LOG_HPP
#define PLUS(T, P) v.push_back({ "cpp:log1p<" #T ">", P, true, [](const ld* in, ld* out) { const std::complex<T> r = polylogarithm::log1p(std::complex<T>((T)in[0], (T)in[1])); out[0] = r.real(); out[1] = r.imag(); } });
#define POS(T, P) v.push_back({ "cpp:pos_log<" #T ">", P, false, [](const ld* in, ld* out) { const std::complex<T> r = polylogarithm::pos_log(std::complex<T>((T)in[0], (T)in[1])); out[0] = r.real(); out[1] = r.imag(); } });
   PLUS(float, F) PLUS(double, D) PLUS(long double, L) POS(double, D) POS(long double, L) POS(float, F)
#endif
   if (clog1pf) v.push_back({ "c:clog1pf", F, true, [](const ld* in, ld* out) { put(clog1pf(cxf(in)), out); } });
   if (clog1p) v.push_back({ "c:clog1p", D, true, [](const ld* in, ld* out) { put(clog1p(cxd(in)), out); } });
   if (clog1pl) v.push_back({ "c:clog1pl", L, true, [](const ld* in, ld* out) { put(clog1pl(cxl(in)), out); } });
   if (pos_clog) v.push_back({ "c:pos_clog", D, false, [](const ld* in, ld* out) { put(pos_clog(cxd(in)), out); } });
   if (pos_clogl) v.push_back({ "c:pos_clogl", L, false, [](const ld* in, ld* out) { put(pos_clogl(cxl(in)), out); } });
   if (cdlog1p_) v.push_back({ "f:cdlog1p", D, true, [](const ld* in, ld* out) { double x[2] = { (double)in[0], (double)in[1] }; put(cdlog1p_(x), out); } });
   if (pos_cdlog_) v.push_back({ "f:pos_cdlog", D, false, [](const ld* in, ld* out) { double x[2] = { (double)in[0], (double)in[1] }; put(pos_cdlog_(x), out); } });
   return v;
}

static void one_log(const LogFn& h, const ld* in, Acc& a)
{
   if (!std::isfinite(in[0]) || !std::isfinite(in[1])) return;
   if (h.plus1 ? in[0] == -1 && in[1] == 0 : in[0] == 0 && in[1] == 0) return;      // the pole
   ld o[2]; h.f(in, o); a.evals++; a.hash(nullptr, (int64_t)(uintptr_t)h.name[2]*131 + h.prec + 8*h.plus1, in);
   a.count(std::string("values: ") + h.name);
   const std::string at = std::string(h.name) + " at (" + fmt(in[0]) + "," + fmt(in[1]) + ")", res = " returns (" + fmt(o[0]) + "," + fmt(o[1]) + ")";
   auto bad = [&](const char* what, const std::string& more = "") { violation_raw(std::string(what) + " " + h.name, at + res + more, "null"); };
   const ld eps = epsl(h.prec), big = max_of(h.prec);
   ref::cq z; z.re = in[0]; z.im = in[1];
   // the reference follows the side of the sum's real axis given by the sign of a zero imaginary part
   ref::cq t = h.plus1 ? ref::clog1p<q>(z) : ref::clog<q>(z);
   if (h.plus1 && in[1] == 0 && in[0] < -1) t.im = std::signbit(in[1]) ? -ref::PIQ : ref::PIQ;
   if (h.plus1 && h.name[0] == 'f' && in[1] == 0 && in[0] < -1) t.im = o[1] < 0 ? -ref::PIQ : ref::PIQ;       // Fortran's 1 + z has no -0
   const q m = hypotq(t.re, t.im), e = hypotq((q)o[0] - t.re, (q)o[1] - t.im);
   q sens = 0;
   if (h.plus1) { const q u = hypotq(1 + z.re, z.im); sens = hypotq(z.re, z.im)/u; if (u > 0.1Q) sens *= fminq(1, m); }   // away from -1 the value itself sets the scale
   const ld tol = 10*eps*(ld)(m + sens) + 4*denorm_of(h.prec);
   const ld u = (ld)e/tol; a.max(h.name, (double)u);
   if (!((ld)e <= tol) && (ld)fabsq(z.re) < big/2 && (ld)fabsq(z.im) < big/2) bad("accuracy", ", true value (" + fmt((ld)t.re) + "," + fmt((ld)t.im) + ")");
   if (in[1] == 0) {
      a.count("on the real axis");
      if (!h.plus1 && !(in[0] > 0 ? o[1] == 0 : fabsl(o[1] - (ld)ref::PIQ) <= 2*eps*4)) bad("side of the cut");
      if (h.plus1 && !(in[0] > -1 ? o[1] == 0 : fabsl(fabsl(o[1]) - (ld)ref::PIQ) <= 2*eps*4)) bad("imaginary part on the axis");
   } else {
      const ld c[2] = { in[0], -in[1] }; ld p[2]; h.f(c, p); a.evals++;
      if (!(same_bits(h.prec, p[0], o[0]) && same_bits(h.prec, p[1], -o[1]))) {
         const ld d = hypotl(p[0] - o[0], p[1] + o[1]); if (!(d <= 4*eps*hypotl(o[0], o[1]))) bad("mirror symmetry", ", at the conjugate (" + fmt(p[0]) + "," + fmt(p[1]) + ")");
      }
      if ((in[1] > 0) != (o[1] > 0) && fabsl(o[1]) > 4*denorm_of(h.prec)) bad("sign of the imaginary part");
   }
}

static void c24()
{
   const std::vector<LogFn> v = logs();
   if (v.empty()) return;
   guard_phase("complex logarithms");
   const long per = cases(400000), chunk = 1024, nc = (per + chunk - 1)/chunk;
   parallel(nc*(long)v.size(), [&](long c, Acc& a) {
      const LogFn& h = v[c % v.size()]; Rng r(cfg.seed*6007 + c, 24);
      const Fn dummy{ h.name, CPP, Z, h.prec, 2, nullptr };
      for (int i = 0; i < chunk; ++i) {
         In x; ld in[2];
         switch (r.below(6)) {
         case 0: x = gen_tiny(dummy, r); break;
         case 1: { const ld s = powl(10, r.U(h.prec == L ? -25 : -20, 0)), p = r.U(0, 6.2831853); x.re = (h.plus1 ? -1 : 1) + s*cosl(p); x.im = s*sinl(p); break; }     // near the pole or the zero
         case 2: { const ld p = r.U(0, 6.2831853); x.re = (h.plus1 ? -1 : 0) + cosl(p)*(1 + (ld)r.U(-1, 1)*powl(10, r.U(-19, 0))); x.im = sinl(p); break; }      // |1 + z| ~ 1
         case 3: { const ld s = powl(10, r.U(-30, 3)); x.re = r.sgn()*s; x.im = r.below(2) ? 0 : r.sgn()*s*powl(10, r.U(-30, 2)); break; }
         default: x = gen_complex(r, h.prec);
         }
         in[0] = round_to(h.prec, x.re); in[1] = round_to(h.prec, x.im);
         if (r.below(16) == 0) in[1] = r.next() & 1 ? 0.0L : -0.0L;
         one_log(h, in, a);
      }
   });
   for (const LogFn& h : v) add_sample(std::string("observed: ") + h.name);
}

const Check CHECKS[] = { {"C18", c18}, {"C24", c24}, {0, 0} };
