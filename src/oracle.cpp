// The accuracy oracle: a result is compared with the reference value. A long double evaluation of the
// reference screens; anything not clearly within the tolerance is adjudicated in quadruple precision,
// with the conditioning of the value in the argument taken into account.
#include "core.hpp"
#include <cstdlib>
using ref::q;

template <class T> static T hyp(T a, T b)
{
   a = a < 0 ? -a : a; b = b < 0 ? -b : b;
   if (a < b) { T t = a; a = b; b = t; }
   if (!(a > 0) || a - a != 0) return a;
   const T t = b/a;
   return a*(T)sqrtl((ld)(1 + t*t));
}

template <class T> RefT<T> reference(const Fn& f, int64_t n, const ld* in)
{
   if (f.order != GENERIC) n = f.order;
   if (f.kind == C_) return { ref::Cl<T>(n, (T)in[0]), 0 };
   if (f.kind == S_) return { ref::Sl<T>(n, (T)in[0]), 0 };
   ref::C<T> z; z.re = in[0]; z.im = f.kind == Z ? in[1] : 0;
   const ref::C<T> r = ref::Li<T>(n, z);
   return { r.re, f.kind == Z ? r.im : (T)0 };
}
template RefT<q> reference<q>(const Fn&, int64_t, const ld*);
template RefT<ld> reference<ld>(const Fn&, int64_t, const ld*);

// Largest admitted rounding error in units of eps (|f| + |z f'|) (Li) and eps |f| (Cl, Sl); about three
// times the largest error seen in long surveys of the repaired library with gcc and clang.
static double global_units(const Fn& f, int64_t n, const ld* in)
{
   if (f.order != GENERIC) n = f.order;
   const double x = (double)in[0];
   if (f.kind == R) {
      if (n < 4) return 32;
      const double y = std::fabs(x) > 1 ? 1/x : x;
      return y > 0.45 && y < 0.85 ? 300 : 150;
   }
   if (f.kind == Z) {
      if (f.order != GENERIC) {
         if (n == 4 && f.prec == D && in[1] == 0) return 300;       // handed to the real function
         return f.prec == F ? 12 : f.prec == D ? 24 : 60;
      }
      if (n == 4 && in[1] == 0) return 300;
      if (n >= 0) {                        // grows with the number of powers of ln z that are summed
         const double l = 0.5*std::log(std::fmax(1, std::fmax(x*x, (double)(in[1]*in[1]))));
         return (n < 7 ? 24 : n < 30 ? 40 : 90) + 0.75*std::fmin((double)n, std::isfinite(l) ? l : 710);
      }
      if (n >= -5) return 24;
      if (n >= -20) return 40;
      if (n >= -60) return 110;
      if (n >= -100) return 270;
      if (n >= -168) return 700;
      return std::fmax(1600, 8.0*-(double)n);
   }
   if (f.kind == S_) return 30;
   if (f.prec == L) return 40;
   if (f.order == GENERIC) return n <= 6 ? 24 : n < 10 ? 60 : 220;
   return 24;
}

// Local bounds: the same measure, surveyed per function and region (tools/survey.py, src/cells.inc), three times (five times where samples
// are few) the largest error seen with several compilers. The global bound stays an upper limit, and the bound where too
// few samples fell into a cell.
static int zone(double v, const double* b, int n) { int i = 0; while (i < n && !(v < b[i])) ++i; return i; }
enum { COLS = 94 };
struct Row { char kind; bool generic; int prec, order; float bound[COLS]; };
static const Row ROWS[] = {
#include "cells.inc"
};
struct Cell { char kind; bool generic; int prec, order, col; };
static Cell cell(const Fn& f, int64_t n, const ld* in)
{
   if (f.order != GENERIC) n = f.order;
   const double x = (double)in[0], y = (double)in[1];
   Cell c = { "RZCS"[f.kind], f.order == GENERIC, f.prec, 0, -1 };
   if (f.order == GENERIC) {                       // orders in classes
      static const int up[] = { 0, 1, 2, 3, 4, 5, 6, 7, 10, 20, 34, 60, 120, 400, 2000 };
      static const int dn[] = { 1, 2, 3, 5, 10, 20, 40, 60, 80, 100, 130, 150, 168 };
      if (f.kind == Z && n < 0) { if (n < -168) return c; int i = 0; while (i < 12 && dn[i + 1] <= -n) ++i; n = -dn[i]; }
      else { int i = 0; while (i < 14 && up[i + 1] <= n) ++i; n = up[i]; }
   }
   c.order = (int)n;
   if (f.kind == R) {
      static const double z[] = { 1e-3, 0.1, 0.25, 0.5, 0.8, 0.95, 1.05, 1.25, 2, 4, 10, 30, 200 };
      c.col = 2*zone(std::fabs(x), z, 13) + (x < 0);
   } else if (f.kind == Z) {
      static const double rr[] = { 1e-3, 0.1, 0.3, 0.5, 0.75, 0.97, 1.03, 1.4, 2, 10, 1e3, 1e10 }, aa[] = { 0.5, 1.05, 1.6, 2.1, 2.8 };
      const double m = hyp<double>(x, y), a = std::fabs(std::atan2(y, x));
      const int k = zone(a, aa, 5);
      if (hyp<double>(x - 1, y) < 0.1) c.col = 90 + (y == 0) + 2*(hyp<double>(x - 1, y) < 1e-5);
      else c.col = 7*zone(m, rr, 12) + (y == 0 ? x > 0 ? 6 : 5 : k > 4 ? 4 : k);
   } else {
      static const double z[] = { 1e-5, 0.1, 0.8, 1.0, 1.3, 1.5707, 1.5709, 1.62, 1.75, 1.9, 2.2, 2.6, 3.0, 3.1, 3.14159 };
      double w = std::fabs((double)ref::mod2pi<ld>(in[0])); if (w > 3.14159265358979) w = std::fabs(w - 6.283185307179586);
      c.col = 2*zone(w, z, 15) + (std::fabs(x) > 3.15);
   }
   return c;
}
static double cell_units(const Fn& f, int64_t n, const ld* in)
{
   const Cell c = cell(f, n, in);
   if (c.col < 0) return HUGE_VAL;
   // a power k^|n| rounds by |n| units, which the survey of a cell without bounds (|z| -> 0, infinity) rarely meets
   // and exp(log z) by log|z| units
   const double floor = f.kind != Z || f.order != GENERIC ? 0 : n < 0 ? -3.0*(double)n : 0.6*std::log(hyp<double>((double)in[0], (double)in[1]) + 1);
   for (const Row& r : ROWS) if (r.kind == c.kind && r.generic == c.generic && r.prec == c.prec && r.order == c.order) return r.bound[c.col] > 0 ? std::fmax(floor, r.bound[c.col]) : HUGE_VAL;
   return HUGE_VAL;
}
static const bool surveying = getenv("PV_SURVEY") != nullptr;
double acc_units(const Fn& f, int64_t n, const ld* in) { return surveying ? global_units(f, n, in) : std::fmin(global_units(f, n, in), cell_units(f, n, in)); }
double coarse_units(const Fn& f, int64_t n, const ld* in) { return global_units(f, n, in); }

// the long double Clausen rational approximations amplify rounding just above pi/2: absolute error in units of eps
static double abs_units(const Fn& f, const ld* in)
{
   if (f.prec != L || f.kind != C_ || f.order < 3) return 0;
   const ld y = fabsl(ref::mod2pi<ld>(in[0]));
   static const double a[] = { 150, 50, 250, 420 };
   return y > 1.57L && y < 1.62L ? a[f.order - 3] : y > 1.57L && y < 1.75L ? a[f.order - 3]/(f.order == 6 ? 1.5 : 2) : y > 1.75L && y < 1.95L ? 15 : y > 1.57L && y < 2.3L ? 2 : 0;
}

double cl_bound(const Fn& f, int64_t n)
{
   if (f.order != GENERIC) n = f.order;
   if (n == 1) return f.kind == S_ ? 1.5707963267948968 : HUGE_VAL;
   const bool zeta_like = (f.kind == C_) == (n % 2 != 0);
   return zeta_like ? (double)ref::zeta<ld>(n)*(1 + 1e-13) : n == 2 ? 1.0149416064096538 : n < 4 ? 1.1 : 1.01;
}

// angles at which the rounding of the reduction covers a substantial part of the period
bool huge_angle(const Fn& f, const ld* in) { return (f.kind == C_ || f.kind == S_) && fabsl(in[0])*epsl(f.prec) > 1e-3L; }

static q sensitivity(const Fn& f, int64_t n, const ld* in, double A, q v)
{
   if (f.order != GENERIC) n = f.order;
   if (f.kind == C_ || f.kind == S_) {
      const q x = in[0], d = (f.order == GENERIC && n > 6 ? 8 : 2)*(q)epsl(f.prec)*(x < 0 ? -x : x);
      const q a = (f.kind == C_ ? ref::Cl<q>(n, x + d) : ref::Sl<q>(n, x + d)) - v;
      const q b = (f.kind == C_ ? ref::Cl<q>(n, x - d) : ref::Sl<q>(n, x - d)) - v;
      return (a < 0 ? -a : a) + (b < 0 ? -b : b) + abs_units(f, in)*(q)epsl(f.prec);
   }
   if (n == INT64_MIN) return 0;
   ref::C<q> z; z.re = in[0]; z.im = f.kind == Z ? in[1] : 0;
   const ref::C<q> r = ref::Li<q>(n - 1, z);
   return A*(q)epsl(f.prec)*(f.kind == Z ? hyp<q>(r.re, r.im) : r.re < 0 ? -r.re : r.re);
}

Tol tolerance(const Fn& f, int64_t n, const ld* in)
{
   Tol t; t.A = acc_units(f, n, in);
   if (huge_angle(f, in)) { t.re = t.im = 0; t.mod = cl_bound(f, n); t.sens = 2*t.mod; return t; }
   const RefT<q> r = reference<q>(f, n, in);
   t.re = r.re; t.im = r.im; t.mod = hyp<q>(r.re, r.im);
   t.sens = sensitivity(f, n, in, t.A, r.re);
   return t;
}

int check_acc(const Fn& f, int64_t n, const ld* in, const ld* out, Acc& a, const char* kind, double slack)
{
   if (!std::isfinite(in[0]) || !std::isfinite(in[1])) return SKIP;
   const double A = slack*acc_units(f, n, in);
   const ld eps = epsl(f.prec), big = max_of(f.prec)/(f.order == GENERIC && n < 0 ? 4096 : 16);
   const std::string key = std::string(kind) + " " + f.name;
   a.evals++;
   if (huge_angle(f, in)) {
      const double b = cl_bound(f, n);
      a.count("huge angles, bounded result only");
      if (b == HUGE_VAL ? !(out[0] == out[0]) || out[0] < -0.6931471805599455L : !(fabsl(out[0]) <= b)) {
         violation(kind, f, n, in, "returns " + out_text(f, out) + ", which no angle gives"); return BAD;
      }
      return OK;
   }
   if (f.prec != L && !surveying) {
      const RefT<ld> r = reference<ld>(f, n, in);
      const ld m = hyp<ld>(r.re, r.im), e = hyp<ld>(out[0] - r.re, out[1] - r.im);
      if (m < big && e <= 0.6L*A*eps*m + denorm_of(f.prec)) {
         const double u = (double)(e/(eps*m + denorm_of(f.prec)));
         a.max(key, u/A, &f, n, in); a.hash(&f, n, in); a.count("judged by the long double screen");
         return OK;
      }
   }
   const RefT<q> r = reference<q>(f, n, in);
   const q m = hyp<q>(r.re, r.im);
   if (m != m) { a.count("reference undefined"); return SKIP; }
   if (m > (q)big) { a.count("true value (nearly) overflows"); return SKIP; }
   const q s = slack*sensitivity(f, n, in, acc_units(f, n, in), r.re);
   if (s != s || s > 1e4900Q) { a.count("reference undefined"); return SKIP; }
   if (f.kind == C_ && (f.order == GENERIC ? n : f.order) == 1) {     // the pole, within the rounding of the angle: anything above the values around
      const ld y = ref::mod2pi<ld>(in[0]), d = 2*eps*fabsl(in[0]);
      if (fabsl(y) <= d && (ld)out[0] >= (ld)-logl(2*d) - 1e-6L) { a.count("pole within the rounding of the angle"); return OK; }
   }
   if (s > (q)big*A*eps) { a.count("slope overflows"); return SKIP; }
   const q tol = A*(q)eps*m + s + (f.kind == C_ && f.order == GENERIC ? A : 4)*(q)denorm_of(f.prec);
   const q e = hyp<q>((q)out[0] - r.re, (q)out[1] - r.im);
   if (surveying) {
      const double u = f.kind == R || f.kind == Z ? (double)((e - 4*(q)denorm_of(f.prec))/((q)eps*m + s/(slack*acc_units(f, n, in)))) : (double)((e - s - 4*(q)denorm_of(f.prec))/((q)eps*m));
      const Cell c = cell(f, n, in); char b[64];
      snprintf(b, sizeof b, "cell %c %d %d %d %d", c.kind, c.generic, c.prec, c.order, c.col);
      if (c.col >= 0 && m > 1e4*(q)denorm_of(f.prec)) { a.max(b, u, &f, n, in); a.count(b); }
   }
   a.count("adjudicated in quadruple precision");
   a.hash(&f, n, in);
   if (finite2(f, out)) a.max(key, (double)(e/tol), &f, n, in);
   if (!(e <= tol)) {
      char b[160]; snprintf(b, sizeof b, "; error is %.3g units in the last place (%.3g times the tolerance)", (double)(e/(eps*m)), (double)(e/tol));
      const ld ro[2] = { (ld)r.re, (ld)r.im };
      violation(kind, f, n, in, "returns " + out_text(f, out) + ", true value " + out_text(f, ro) + (finite2(f, out) ? b : ""));
      return BAD;
   }
   return OK;
}

// for surveys: an input that falls into every cell equally often
static In spread(const Fn& f, Rng& r)
{
   In x; x.stratum = 0; x.im = 0;
   if (f.kind == R) {
      static const double z[] = { 1e-6, 1e-3, 0.1, 0.25, 0.5, 0.8, 0.95, 1.05, 1.25, 2, 4, 10, 30, 200, 1e6 };
      const int k = (int)r.below(14); x.re = round_to(f.prec, (r.next() & 1 ? -1 : 1)*z[k]*powl(z[k + 1]/z[k], r.u()));
   } else if (f.kind == Z) {
      static const double rr[] = { 1e-6, 1e-3, 0.1, 0.3, 0.5, 0.75, 0.97, 1.03, 1.4, 2, 10, 1e3, 1e10, 1e30 }, aa[] = { 0, 0.5, 1.05, 1.6, 2.1, 2.8, 3.14159265358979 };
      const int k = (int)r.below(14), j = (int)r.below(8);
      ld m = k < 13 ? rr[k]*powl(rr[k + 1]/rr[k], r.u()) : powl(10, r.U(-9, -1)), t = j < 6 ? r.U(aa[j], aa[j + 1]) : j == 6 ? 0 : 3.14159265358979323846L;
      ld re = m*cosl(t), im = j < 6 ? m*sinl(t) : 0; if (k == 13) re = 1 + (j == 7 ? -m : re);
      x.re = round_to(f.prec, re); x.im = round_to(f.prec, r.next() & 1 ? im : -im);
   } else {
      static const double z[] = { 1e-8, 1e-5, 0.1, 0.8, 1.0, 1.3, 1.5707, 1.5709, 1.62, 1.75, 1.9, 2.2, 2.6, 3.0, 3.1, 3.14159, 3.14159265358979 };
      const int k = (int)r.below(16); ld y = z[k] + (z[k + 1] - z[k])*r.u(); if (r.next() & 1) y = -y; if (r.next() & 1) y += 6.28318530717958647693L*((int)r.below(41) - 20);
      x.re = round_to(f.prec, y);
   }
   return x;
}
static int64_t class_order(int64_t n, Rng& r)
{
   static const int up[] = { 0, 1, 2, 3, 4, 5, 6, 7, 10, 20, 34, 60, 120, 400, 2000, 100000 }, dn[] = { 1, 2, 3, 5, 10, 20, 40, 60, 80, 100, 130, 150, 169 };
   const int i = (int)r.below(n < 0 ? 12 : 15);
   const int64_t k = n < 0 ? -(int64_t)(dn[i] + r.below(dn[i + 1] - dn[i])) : (int64_t)(up[i] + r.below(up[i + 1] - up[i]));
   return n > 0 && k == 0 ? 1 : k;
}

void sweep(const std::vector<const Fn*>& fns, double quick, const std::function<In(const Fn&, Rng&)>& gen,
           const std::function<int64_t(Rng&)>& order, const char* kind, double slack)
{
   const long per = cases(quick), chunk = 512, nc = (per + chunk - 1)/chunk;
   guard_phase(kind);
   parallel(nc*(long)fns.size(), [&](long c, Acc& a) {
      const Fn& f = *fns[c % fns.size()];
      Rng r(cfg.seed*1000003 + c, 77); int64_t n = f.order;
      for (int i = 0; i < chunk; ++i) {
         if (f.order == GENERIC && i % 64 == 0) { n = order(r); if (surveying && (c & 1)) n = class_order(n, r); }
         const In x = surveying && (i & 1) ? spread(f, r) : gen(f, r); const ld in[2] = { x.re, x.im }; ld out[2];
         call(f, n, in, out);
         const int st = check_acc(f, n, in, out, a, kind, slack);
         if (st != SKIP) a.count(std::string("inputs: ") + STRATA[x.stratum]);
         if (c % 97 == 0 && i == 3) add_sample(call_text(f, n, in) + " -> " + out_text(f, out));
      }
   });
}
