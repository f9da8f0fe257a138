// Inputs that visit every branch, table end and extreme of the implementations; shared by the checks that watch how a
// call runs (C14 memory and undefined behaviour, C15 side effects, C16 work) rather than what it returns.
#pragma once
#include "core.hpp"
#include <cmath>

// points of every region the implementations distinguish, for walks over the orders
inline const std::vector<In>& region_points(Prec p)
{
   static std::vector<In> v[3];
   static std::mutex m; std::lock_guard<std::mutex> l(m);
   std::vector<In>& w = v[p];
   if (w.empty()) {
      auto add = [&](ld a, ld b) { In z; z.re = round_to(p, a); z.im = round_to(p, b); w.push_back(z); };
      static const ld rad[] = { 1e-30L, 1e-3L, 0.3L, 0.74L, 0.75L, 0.76L, 0.9L, 0.99999L, 1, 1.00001L, 1.1L, 1.39L, 1.4L, 1.41L, 3, 30, 1e10L, 1e30L };
      static const ld ang[] = { 0, 1e-9L, 0.3L, 1.0471975511965977462L, 1.5707963267948966192L, 2.5L, 3.0L, 3.1415926L, 3.14159265358979323846L };
      for (ld r : rad) for (ld a : ang) { add(r*cosl(a), r*sinl(a)); if (a != 0) add(r*cosl(a), -r*sinl(a)); }
      static const ld tiny[] = { 0x1p-1074L, 0x1p-1040L, 1e-308L, 1e-300L, 1e-155L };
      for (ld t : tiny) for (ld r : { 0.75L, 0.5L, 0.99L, 1.0L, 1.2L, 1.4L, 2.0L, 1e5L }) for (int s = 0; s < 4; ++s) { add(s & 1 ? r : -r, s & 2 ? t : -t); add(s & 2 ? t : -t, s & 1 ? r : -r); }
      add(max_of(p), max_of(p)); add(max_of(p), 0); add(-max_of(p), denorm_of(p)); add(0, max_of(p)); add(denorm_of(p), denorm_of(p)); add(0, 0); add(1, 0); add(-1, 0); add(1, -0.0L);
      add(-2.5L, 0); add(2.5L, 0); add(0.5L, 0); add(-0.5L, 0); add(NAN, 0); add(0, NAN); add(HUGE_VALL, 0); add(-HUGE_VALL, 1); w[w.size() - 1].re = -HUGE_VALL; w[w.size() - 2].re = HUGE_VALL;
   }
   return w;
}

// visits (function, order, argument); per: random cases for a dedicated function, orders: |n| up to which all orders are visited
inline void hostile(double per, int orders, double generic_factor, const std::function<void(const Fn&, int64_t, const ld*, Acc&)>& visit, const std::function<bool(const Fn&)>& which = [](const Fn&) { return true; })
{
   const auto v = select(which);
   guard_phase("orders times regions");
   std::vector<const Fn*> g; for (auto f : v) if (f->order == GENERIC) g.push_back(f);
   if (!g.empty()) parallel((2L*orders + 1)*(long)g.size(), [&](long c, Acc& a) {
      const Fn& f = *g[c % g.size()]; const int64_t n = c/(long)g.size() - orders; Rng r(cfg.seed*17 + c, 77);
      const auto& w = region_points(D); const size_t step = std::llabs(n) <= 30 || std::llabs(n) > orders - 4 ? 1 : 7;
      for (size_t i = step > 1 ? r.below(step) : 0; i < w.size(); i += step) { const ld in[2] = { f.kind == Z ? w[i].re : w[i].re*2.1L, f.kind == Z ? w[i].im : 0 }; visit(f, n, in, a); }
      a.count("inputs: order walk");
   });
   guard_phase("regions of the dedicated functions");
   parallel((long)v.size(), [&](long c, Acc& a) { const Fn& f = *v[c]; if (f.order == GENERIC) return; for (const In& z : region_points(f.prec)) { const ld in[2] = { z.re, f.kind == Z ? z.im : 0 }; visit(f, f.order, in, a); } });
   guard_phase("random and hostile arguments");
   const long chunk = 128;
   std::vector<long> off(1, 0); for (auto f : v) off.push_back(off.back() + (long)((f->order == GENERIC ? generic_factor : 1)*cases(per)/chunk + 1));
   parallel(off.back(), [&](long c, Acc& a) {
      const Fn& f = *v[std::upper_bound(off.begin(), off.end(), c) - off.begin() - 1]; Rng r(cfg.seed*104729 + c, 14); int64_t n = f.order;
      for (int i = 0; i < chunk; ++i) {
         if (f.order == GENERIC && i % 4 == 0) n = r.below(8) == 0 && !cfg.idict.empty() ? (r.next() & 1 ? 1 : -1)*(cfg.idict[r.below(cfg.idict.size())] + (int64_t)r.below(5) - 2) : gen_order_any(r);
         In x;
         switch (r.below(8)) { case 0: case 1: case 2: case 3: x = gen_any(f, r); break; case 4: x = gen_tiny(f, r); break;
         case 5: { const auto& w = region_points(f.prec); x = w[r.below(w.size())]; if (r.next() & 1) x.re = ulp_step(f.prec, x.re, (int)r.below(5) - 2); if (r.next() & 1) x.im = ulp_step(f.prec, x.im, (int)r.below(5) - 2); break; }
         default: x = gen_for(f, r); }
         const ld in[2] = { x.re, f.kind == Z ? x.im : 0 };
         visit(f, n, in, a); a.count(f.kind == Z ? "inputs: complex" : f.kind == R ? "inputs: real" : "inputs: angles");
         a.count(std::string("inputs: ") + (std::isnan(in[0]) || std::isnan(in[1]) ? "NaN" : std::isinf(in[0]) || std::isinf(in[1]) ? "infinite" : "finite"));
      }
   });
}
