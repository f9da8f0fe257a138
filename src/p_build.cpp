// C20: one build configuration of the libraries against the reference. PV_FAST: compiled with fast-math.
#include "hostile.hpp"

static const bool fast = getenv("PV_FAST") != nullptr;

// ordinary arguments: away from zero, from the largest numbers and from the axes by more than the rounding of sums
static In ordinary(const Fn& f, Rng& r)
{
   if (!fast) return gen_for(f, r);
   for (;;) {
      In z = gen_for(f, r);
      const ld a = fabsl(z.re), b = f.kind == Z ? fabsl(z.im) : 0, m = hypotl(a, b), e = f.prec == F ? 1e-3L : 1e-6L;
      if (!(m > 0.05L && m < (f.kind == Z ? 50 : f.kind == R ? 1e5L : 100))) continue;
      if (f.kind == Z) { if (a < e*m || b < e*m || hypotl(z.re - 1, z.im) < 1e-2L || hypotl(z.re + 1, z.im) < 1e-2L) continue; }
      else if (f.kind == R) { if (fabsl(z.re - 1) < e) continue; }
      else { const ld k = z.re/3.14159265358979323846264338327950288L; if (fabsl(k - rintl(k)) < 1e-3L) continue; }
      return z;
   }
}

static void c20()
{
   const auto v = select([](const Fn& f) { return f.order != GENERIC; }), g = select([](const Fn& f) { return f.order == GENERIC; });
   const double slack = fast ? 5 : 1.5;
   sweep(v, 9000, ordinary, [](Rng&) -> int64_t { return 0; }, "accuracy", slack);
   sweep(g, 20000, ordinary, [](Rng& r) -> int64_t { return r.below(4) ? gen_order_small(r, 1, 40) : gen_order_pos(r, 1); }, "accuracy", slack);
   sweep({ find_fn("cpp:Li(n,z)") }, 20000, ordinary, [](Rng& r) -> int64_t { return -(int64_t)r.below(fast ? 40 : 170); }, "accuracy", slack);
   if (fast) return;
   guard_phase("signed zeros, NaN, infinities");
   const auto w = select([](const Fn&) { return true; });
   parallel((long)w.size(), [&](long c, Acc& a) {
      const Fn& f = *w[c]; Rng r(cfg.seed*733 + c, 20);
      for (int64_t n : { (int64_t)-200, (int64_t)-9, (int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)2, (int64_t)5, (int64_t)8, (int64_t)100 }) {
         if (f.order != GENERIC) { if (n != 2) continue; n = f.order; }
         ld out[2];
         auto at = [&](ld x, ld y, const char* what) { const ld in[2] = { x, f.kind == Z ? y : 0 }; call(f, n, in, out); a.evals++; a.hash(&f, n, in); a.count(std::string("special arguments: ") + what); };
         auto bad = [&](ld x, ld y, const std::string& m) { const ld in[2] = { x, f.kind == Z ? y : 0 }; violation("special value", f, n, in, "returns " + out_text(f, out) + ", expected " + m); };
         // NaN in, NaN out
         static const ld N = __builtin_nanl("");
         for (int k = 0; k < 12; ++k) { const ld x = k % 3 == 1 ? gen_for(f, r).re : N, y = k % 3 == 0 ? gen_for(f, r).im : N; if (f.kind != Z && x == x) continue; at(x, y, "NaN"); if (out[0] == out[0] && out[1] == out[1]) bad(x, y, "NaN"); }
         if (f.kind == C_ || f.kind == S_) {
            for (int s = -1; s <= 1; s += 2) { at(s*HUGE_VALL, 0, "infinite angle"); if (out[0] == out[0]) bad(s*HUGE_VALL, 0, "NaN"); }
            if (n >= 1) for (int s = -1; s <= 1; s += 2) { at(s*0.0L, 0, "zero angle"); const bool odd = (f.kind == C_) == (n % 2 == 0); if (odd ? out[0] != 0 && !(f.kind == S_ && n == 1) : !(out[0] > 1 || n > 50 || f.kind == S_)) bad(s*0.0L, 0, odd ? "0" : "zeta"); }
            continue;
         }
         // zero keeps its sign
         for (int s = 0; s < 4; ++s) { const ld x = s & 1 ? -0.0L : 0.0L, y = s & 2 ? -0.0L : 0.0L; if (f.kind != Z && (s & 2)) continue; at(x, y, "zeros"); if (!same_bits(f.prec, out[0], x) || (f.kind == Z && !same_bits(f.prec, out[1], y))) bad(x, y, "the argument itself"); }
         // infinite real arguments
         if (f.kind == R || n > 0) { at(-HUGE_VALL, 0, "-infinity"); if (!(std::isinf(out[0]) && out[0] < 0) && f.kind == R) bad(-HUGE_VALL, 0, "-inf"); }
         // the cut: the same limit from below for both zeros
         if (f.kind == Z && n >= 1) for (int k = 0; k < 20; ++k) {
            const ld x = round_to(f.prec, 1 + powl(10, r.U(-3, 3))); at(x, 0.0L, "cut"); const ld im = out[1]; at(x, -0.0L, "cut");
            if (!(f.order == GENERIC ? im <= 1e3L*epsl(f.prec)*fabsl(out[0]) : im < 0) || !same_bits(f.prec, im, out[1])) bad(x, -0.0L, "the limit from below for both signs of zero");
         }
         if (f.kind == Z && n >= 2) for (int k = 0; k < 20; ++k) { const ld x = round_to(f.prec, r.U(-5, 1)); for (ld y : { 0.0L, -0.0L }) { at(x, y, "real axis below 1"); const ld t = 1e-3L*epsl(f.prec); if (!(fabsl(out[1]) <= (f.order == GENERIC ? 1e4L*t : 0))) bad(x, y, "a vanishing imaginary part"); } }
      }
   });
}
const Check CHECKS[] = { {"C20", c20}, {0, 0} };
