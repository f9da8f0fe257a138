// Accuracy of every function on its whole domain.
#include "core.hpp"

static bool dedicated(const Fn& f) { return f.order != GENERIC; }
static int64_t no_order(Rng&) { return 0; }

// exhaustive walks over ulp neighbours of a point: the values a switch-over, a table or a special case hangs on
static void neighbours(const std::vector<const Fn*>& fns, const char* kind, int width)
{
   static const ld pts[] = { 0, 1, -1, 0.5L, -0.5L, 2, -2, 0.8L, -0.8L, 1.25L, 0.25L, 4, 3.14159265358979323846L, 6.28318530717958647693L, 1.57079632679489661923L, 4.71238898038468985769L, 1.04719755119659774615L, 2.09439510239319549231L };
   parallel((long)fns.size(), [&](long c, Acc& a) {
      const Fn& f = *fns[c];
      auto one = [&](ld x) { const ld in[2] = { x, 0 }; ld out[2]; if (!std::isfinite(x)) return; call(f, f.order == GENERIC ? 2 : f.order, in, out); check_acc(f, f.order == GENERIC ? 2 : f.order, in, out, a, kind); a.count("inputs: neighbours of special points"); };
      for (ld p : pts) for (int s = -1; s <= 1; s += 2) { ld x = round_to(f.prec, s*p); ld y = x; for (int k = 0; k < width; ++k) { one(x); one(y); x = ulp_step(f.prec, x, 1); y = ulp_step(f.prec, y, -1); } }
      for (ld d : cfg.dict) for (int s = -1; s <= 1; s += 2) for (int k = -2; k <= 2; ++k) one(ulp_step(f.prec, round_to(f.prec, s*d), k));
   });
}

// simple numbers, of which special cases, tables and examples are made: all multiples of 1/8 and 1/10 around the origin
static void simple(const std::vector<const Fn*>& fns, int lo = 0, int hi = 0)
{
   struct Job { const Fn* f; int64_t n; int den, row; }; std::vector<Job> jobs;
   for (auto f : fns) for (int n = lo; n <= hi; ++n) for (int den : { 8, 10 })
      for (int k = f->kind == Z ? -(den == 8 ? 48 : 30) : 0; k <= (f->kind == Z ? den == 8 ? 48 : 30 : 0); ++k) jobs.push_back({ f, f->order == GENERIC ? n : f->order, den, k });
   parallel((long)jobs.size(), [&](long c, Acc& a) {
      const Job& j = jobs[c]; const Fn& f = *j.f;
      auto at = [&](int k) { return round_to(f.prec, f.prec == L ? (ld)k/j.den : f.prec == D ? (ld)((double)k/j.den) : (ld)((float)k/j.den)); };
      auto one = [&](ld x, ld y) { const ld in[2] = { x, y }; ld out[2]; call(f, j.n, in, out); check_acc(f, j.n, in, out, a, "accuracy"); a.count("inputs: simple numbers"); };
      if (f.kind != Z) for (int k = -100*j.den; k <= 100*j.den; ++k) one(at(k), 0);
      else for (int k = -(j.den == 8 ? 48 : 30); k <= (j.den == 8 ? 48 : 30); ++k) { one(at(j.row), at(k)); if (!k) one(at(j.row), -0.0L); }
   });
}

static void c01()
{
   auto v = select([](const Fn& f) { return f.kind == R && f.prec == D; });
   sweep(v, 900000, gen_for, no_order, "accuracy");
   neighbours(v, "accuracy", 300);
   simple(v);
}
static void c02()
{
   auto v = select([](const Fn& f) { return f.kind == Z && f.prec == D && dedicated(f); });
   sweep(v, 330000, gen_for, no_order, "accuracy");
   simple(v);
}
static void c03()
{
   auto v = select([](const Fn& f) { return f.prec == F; });
   sweep(v, 500000, [](const Fn& f, Rng& r) { return gen_for(f, r); }, no_order, "accuracy");
   auto w = select([](const Fn& f) { return f.prec == L; });
   sweep(w, 45000, [](const Fn& f, Rng& r) { return gen_for(f, r); }, no_order, "accuracy");
   neighbours(select([](const Fn& f) { return f.prec != D && f.kind != Z; }), "accuracy", 20);
   simple(select([](const Fn& f) { return f.prec != D; }));
}
static void c04()
{
   auto v = select([](const Fn& f) { return f.kind == Z && f.order == GENERIC; });
   sweep(v, 1600000, gen_for, [](Rng& r) { return gen_order_pos(r, 0); }, "accuracy");
   simple(v, 0, 20);
}
static void c05()
{
   auto v = select([](const Fn& f) { return f.kind == Z && f.order == GENERIC; });
   sweep(v, 600000, gen_for,
      [](Rng& r) -> int64_t { if (!cfg.ifresh.empty() && r.below(3) == 0) return gen_order_small(r, -1200, -1); switch (r.below(8)) { case 0: return -(int64_t)(1 + r.below(1200)); case 1: return -(int64_t)(160 + r.below(30)); case 2: case 3: return -(int64_t)(1 + r.below(20)); default: return -(int64_t)(1 + r.below(170)); } }, "accuracy");
   simple(v, -10, -1);
}
static void c06()
{
   auto v = select([](const Fn& f) { return f.kind == C_ && f.prec == D && dedicated(f); });
   sweep(v, 250000, gen_for, no_order, "accuracy");
   neighbours(v, "accuracy", 100);
   simple(v);
}
static void nan_orders(Kind k)
{
   auto v = select([k](const Fn& f) { return f.kind == k && f.order == GENERIC; });
   parallel(64, [&](long c, Acc& a) {
      Rng r(cfg.seed*31 + c, 5); const Fn& f = *v[0];
      for (int i = 0; i < cases(2000); ++i) {
         const int64_t n = r.below(3) ? -(int64_t)r.below(200) : -llabs(gen_order_any(r)); const In x = gen_any(f, r); const ld in[2] = { x.re, 0 }; ld out[2];
         call(f, n > 0 ? 0 : n, in, out); a.evals++; a.count("orders below 1"); a.hash(&f, n, in);
         if (out[0] == out[0]) violation("order below one", f, n, in, "returns " + out_text(f, out) + " instead of NaN");
      }
   });
}
static void c07()
{
   auto v = select([](const Fn& f) { return f.kind == C_ && f.order == GENERIC; });
   sweep(v, 2000000, gen_for, [](Rng& r) { return gen_order_pos(r, 1); }, "accuracy");
   simple(v, 1, 20);
   nan_orders(C_);
}
static void c08()
{
   auto v = select([](const Fn& f) { return f.kind == S_; });
   sweep(v, 2000000, gen_for, [](Rng& r) { return gen_order_pos(r, 1); }, "accuracy");
   simple(v, 1, 20);
   nan_orders(S_);
   Acc a; for (ld z : { 0.0L, -0.0L }) { const ld in[2] = { z, 0 }; ld out[2]; call(*v[0], 1, in, out); a.evals++; if (out[0] != 0) violation("Sl(1,0)", *v[0], 1, in, "is " + out_text(*v[0], out)); }
   merge(a);
}

const Check CHECKS[] = { {"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {0, 0} };
