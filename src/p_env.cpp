// C25: no spurious floating-point exceptions. C26: accuracy and termination in every rounding mode and with
// subnormal numbers flushed to zero.
#include "hostile.hpp"
#include <cfenv>
#include <xmmintrin.h>

static bool within(ld x, ld lo, ld hi) { return x == 0 || (fabsl(x) >= lo && fabsl(x) <= hi); }
static ld lowest(Prec p) { return p == F ? 1e-30L : p == D ? 1e-290L : 1e-4900L; }
static ld root_max(Prec p) { return p == F ? 1e18L : p == D ? 1e150L : 1e2400L; }

// ------------------------------------------------------------------ status flags
static void c25()
{
   hostile(600000, 100, 12, [](const Fn& f, int64_t n, const ld* in, Acc& a) {
      const ld hi = root_max(f.prec);
      if (!within(in[0], 1/hi, hi) || !within(in[1], 1/hi, hi) || (f.order == GENERIC && n < -100)) return;
      ld out[2];
      announce(f, n, in, true);
      feclearexcept(FE_ALL_EXCEPT); f.call(n, in, out); const int e = fetestexcept(FE_ALL_EXCEPT);
      announce(f, n, in, false);
      a.evals++;
      if (!finite2(f, out)) { a.count("results infinite or NaN, not judged"); return; }
      a.hash(&f, n, in); a.count("status flags read"); if (e & FE_INEXACT) a.count("inexact results"); if (e & FE_UNDERFLOW) a.count("underflows (admitted)");
      const char* w = e & FE_INVALID ? "invalid" : e & FE_DIVBYZERO ? "division by zero" : e & FE_OVERFLOW && !(f.order == GENERIC && n > 1000) ? "overflow" : nullptr;
      if (w) violation(std::string("exception ") + w, f, n, in, "signals the floating-point exception '" + std::string(w) + "' although the result " + out_text(f, out) + " is finite: a program that traps exceptions is stopped");
   });
}

// ------------------------------------------------------------------ rounding modes, subnormals flushed
static void c26()
{
   static const char* MODE[] = { "rounding upward", "rounding downward", "rounding towards zero", "subnormals flushed to zero" };
   const auto v = select([](const Fn&) { return true; });
   const long chunk = 100; std::vector<long> off(1, 0);
   for (auto f : v) off.push_back(off.back() + (long)(cases(f->prec == L ? 40000 : 300000)*(f->order == GENERIC ? 4 : 1)/chunk + 1));
   parallel(off.back(), [&](long c, Acc& a) {
      const Fn& f = *v[std::upper_bound(off.begin(), off.end(), c) - off.begin() - 1]; Rng r(cfg.seed*104729 + c, 26); int64_t n = f.order;
      for (int i = 0; i < chunk; ++i) {
         if (f.order == GENERIC) n = f.kind == Z ? (r.below(5) ? gen_order_pos(r, 0) : -(int64_t)(1 + r.below(20))) : gen_order_pos(r, 1);
         const bool hostile = r.below(8) == 0;
         if (hostile && f.order == GENERIC) n = std::max<int64_t>(gen_order_any(r), f.kind == Z ? -(int64_t)r.below(100) : INT64_MIN);
         const In x = hostile ? gen_any(f, r) : gen_for(f, r); const ld in[2] = { x.re, f.kind == Z ? x.im : 0 }; const int mode = r.below(4); ld out[2];
         const unsigned m0 = _mm_getcsr();
         announce(f, n, in, true);
         if (mode < 3) fesetround(mode == 0 ? FE_UPWARD : mode == 1 ? FE_DOWNWARD : FE_TOWARDZERO); else _mm_setcsr(m0 | 0x8040);
         f.call(n, in, out);
         fesetround(FE_TONEAREST); _mm_setcsr((m0 & ~0x3fu) | (_mm_getcsr() & 0x3f));
         announce(f, n, in, false);
         a.evals++; a.count(std::string("calls ") + MODE[mode]);
         if (hostile) { a.hash(&f, n, in); a.count("hostile arguments and orders: termination only"); continue; }
         const ld lo = lowest(f.prec), hi = 1/lo;
         if (!within(in[0], lo, hi) || !within(in[1], lo, hi)) { a.count("very small or large arguments: termination only"); continue; }
         if (n < 0 && f.order == GENERIC && hypotl(in[0] - 1, in[1]) < 0.01L) { a.count("near the pole: termination only"); continue; }
         if (n < 0 && f.order == GENERIC && !(hypotl(out[0], out[1]) > lo)) { a.count("value (nearly) underflows: termination only"); continue; }
         const int st = check_acc(f, n, in, out, a, MODE[mode], 8);
         if (st == OK && c % 997 == 0 && i == 3) add_sample(std::string(MODE[mode]) + ": " + call_text(f, n, in) + " -> " + out_text(f, out));
      }
   });
}
const Check CHECKS[] = { {"C25", c25}, {"C26", c26}, {0, 0} };
