// C16: work per call, in basic blocks of the libraries (compiled with -fsanitize-coverage=trace-pc), and stack depth.
#include "hostile.hpp"
#include "eta.hpp"
#include "factorial.hpp"
#include "harmonic.hpp"
#include "zeta.hpp"
#include <csetjmp>

static thread_local uint64_t blocks = 0, limit = ~0ull;
static thread_local const char *base = nullptr, *low = nullptr;
static thread_local sigjmp_buf out_of_bounds;
extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc()
{
   const char* here = (const char*)__builtin_frame_address(0);
   if (here < low) low = here;
   if (++blocks > limit || (base && base - here > (96 << 10))) { limit = ~0ull; if (base) { base = nullptr; siglongjmp(out_of_bounds, 1); } }
}

static const uint64_t DEDICATED = 2000;
static uint64_t limit_of(const Fn& f) { return f.order != GENERIC ? DEDICATED : f.kind == Z ? 200000 : f.kind == C_ ? 50000 : 10000; }

static void one(const Fn& f, int64_t n, const ld* in, Acc& a)
{
   ld out[2];
   char here; base = low = &here; blocks = 0; limit = limit_of(f);
   const uint64_t lim = limit;
   if (sigsetjmp(out_of_bounds, 0) == 0) {
      call(f, n, in, out);
      const uint64_t b = blocks; const long depth = base - low; base = nullptr; limit = ~0ull;
      a.max("blocks " + f.name, (double)b, &f, n, in); a.max("stack " + f.name, (double)depth, &f, n, in);
      a.max(f.order == GENERIC ? "general order: blocks over limit" : "dedicated functions: blocks over limit", (double)b/lim, &f, n, in);
      if (b == 0) a.count("calls without an observed block");
   } else {
      announce(f, n, in, false);       // ends the note of the abandoned call
      violation("too much work", f, n, in, blocks > lim ? "still running after " + std::to_string(lim) + " basic blocks" : "the stack grows by more than 96 KiB");
   }
   a.evals++; a.hash(&f, n, in); a.count("basic blocks executed", (long)blocks);
}

// the helper functions behind the general orders
static void helpers()
{
   guard_phase("helper functions");
   struct H { const char* name; double (*f)(int64_t); };
   static const H h[] = { { "zeta", polylogarithm::zeta }, { "neg_eta", polylogarithm::neg_eta }, { "inv_fac", polylogarithm::inv_fac }, { "harmonic", polylogarithm::harmonic } };
   const long walk = 3000, nc = 4*64;
   parallel(nc, [&](long c, Acc& a) {
      const H& f = h[c % 4]; Rng r(cfg.seed*127 + c, 161);
      for (long i = 0; i < cases(2000, 200) + walk/32; ++i) {
         const int64_t n = i < walk/32 ? (c/4)*(walk/32) + i - walk : gen_order_any(r);
         char here; base = low = &here; blocks = 0; limit = DEDICATED;
         if (sigsetjmp(out_of_bounds, 0) == 0) { volatile double x = f.f(n); (void)x; base = nullptr; limit = ~0ull; a.max(std::string("blocks ") + f.name, (double)blocks); }
         else violation_raw(std::string("too much work ") + f.name, std::string(f.name) + "(" + std::to_string(n) + ") is still running after " + std::to_string(DEDICATED) + " basic blocks or needs a deep stack", "null");
         a.evals++; a.count("calls of helper functions");
      }
   });
}

static void c16()
{
   helpers();
   hostile(60000, 1300, 60, one);
   guard_phase("all kinds of orders on switch-over circles");
   const std::vector<const Fn*> g = select([](const Fn& f) { return f.order == GENERIC; });
   const long nc = cases(20000);
   parallel(nc, [&](long c, Acc& a) {
      Rng r(cfg.seed*8191 + c, 16);
      for (int i = 0; i < 64; ++i) {
         const Fn& f = *g[c % g.size()]; int64_t n = gen_order_any(r);
         if (r.below(3) == 0) n = gen_order_small(r, -400, 400);
         ld in[2] = { 0, 0 };
         if (f.kind != Z) { in[0] = round_to(D, r.below(3) ? gen_angle(r, D).re : powl(2, r.U(-1074, 1023))); }
         else {
            static const double rad[] = { 0.75, 1.4, 1/1.4, 1.0, 1.0488088481701516, 1, 0.5, 0.86602540378443865 };
            const ld R = rad[r.below(8)]*(1 + (r.below(3) ? r.sgn()*powl(10, r.U(-17, -1)) : 0)), t = r.below(4) ? r.U(-3.1415926535897932, 3.1415926535897932) : ((int)r.below(9) - 4)*0.78539816339744831;
            in[0] = round_to(D, R*cosl(t)); in[1] = round_to(D, R*sinl(t));
            if (r.below(3) == 0) in[r.next() & 1] = round_to(D, r.sgn()*powl(2, r.U(-1074, -40)));
            if (r.below(6) == 0) { in[0] = r.sgn()*rad[r.below(8)]; in[1] = round_to(D, r.sgn()*powl(2, r.U(-1074, -960))); if (r.next() & 1) std::swap(in[0], in[1]); }
            if (n < 0 && r.below(4) == 0) {   // |ln z| and |z| at which the methods for n < -1 change
               const ld m = -(ld)n; const ld lz = r.next() & 1 ? -sqrtl(9*m)/2*(1 + r.sgn()*powl(10, r.U(-16, -2))) : 0.4L*6.283185307179586L*(1 + r.sgn()*powl(10, r.U(-16, -2)));
               const ld rr = lz < 0 ? (ld)lz : lz*cosl(t), ii = lz < 0 ? t : lz*sinl(t); if (rr > -700) { in[0] = round_to(D, expl(rr)*cosl(ii)); in[1] = round_to(D, expl(rr)*sinl(ii)); }
            }
         }
         one(f, n, in, a); a.count("inputs: switch-over circles");
      }
   });
}
const Check CHECKS[] = { {"C16", c16}, {0, 0} };
