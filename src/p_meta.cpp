// Relations between several returned values: other languages, other precisions, other arguments.
#include "core.hpp"
#include <algorithm>
using ref::q;
static const ld PIl = 3.14159265358979323846264338327950288L;
static ld hy(ld a, ld b) { a = fabsl(a); b = fabsl(b); if (a < b) std::swap(a, b); if (!(a > 0) || std::isinf(a)) return a; const ld t = b/a; return a*sqrtl(1 + t*t); }
static bool isnan2(const Fn& f, const ld* o) { return o[0] != o[0] || (f.is_complex() && o[1] != o[1]); }
static int64_t ord(const Fn& f, int64_t n) { return f.order == GENERIC ? n : f.order; }

// the shared tolerance: A eps |f| + conditioning, in quadruple precision; -1: not judged (overflow, undefined)
static ld full_tol(const Fn& f, int64_t n, const ld* in, double slack = 1)
{
   const Tol t = tolerance(f, n, in);
   const q big = (q)max_of(f.prec)/(f.order == GENERIC && n < 0 ? 4096 : 16);
   if (!(t.mod <= big) || !(t.sens <= big)) return -1;
   const q r = slack*(t.A*(q)epsl(f.prec)*t.mod + t.sens) + 6*(q)denorm_of(f.prec);
   return r > (q)LDBL_MAX ? -1 : (ld)r;
}
// two values that should be the same number; quick acceptance first, then the tolerance of the (less precise) function f
static bool same_value(const Fn& f, int64_t n, const ld* in, const ld* a, const ld* b, Acc& acc, ld extra = 0)
{
   const ld m = hy(a[0], a[1]), d = hy(a[0] - b[0], a[1] - b[1]);
   if (d <= 6*epsl(f.prec)*m || d == 0) return true;
   const ld t = full_tol(f, n, in);
   if (t < 0) { acc.count("not judged: true value (nearly) overflows"); return true; }
   acc.count("adjudicated with the conditioning");
   return d <= 1.5L*t + extra;
}
struct Group { std::vector<const Fn*> f; };
static std::vector<Group> groups()
{
   std::map<std::string, Group> m;
   for (const Fn& f : api()) if (f.order != GENERIC) m[std::to_string(f.kind) + " " + std::to_string(f.prec) + " " + std::to_string(f.order)].f.push_back(&f);
   std::vector<Group> v; for (auto& p : m) if (p.second.f.size() > 1) v.push_back(p.second);
   return v;
}

// ---------------------------------------------------------------- C12: C++, C and Fortran
static void c12()
{
   const auto g = groups();
   const long per = cases(420000), chunk = 512, nc = (per + chunk - 1)/chunk;
   guard_phase("languages");
   parallel(nc*(long)g.size(), [&](long c, Acc& a) {
      const Group& G = g[c % g.size()]; const Fn& f0 = *G.f[0]; Rng r(cfg.seed*7001 + c, 12);
      for (int i = 0; i < chunk; ++i) {
         const int w = r.below(10); const In x = w < 2 ? gen_any(f0, r) : w < 4 ? gen_tiny(f0, r) : gen_for(f0, r);
         const ld in[2] = { x.re, x.im }; ld o[3][2];
         for (size_t k = 0; k < G.f.size(); ++k) call(*G.f[k], 0, in, o[k]);
         a.evals++; a.count(std::string("inputs: ") + STRATA[x.stratum]);
         const bool fin = std::isfinite(in[0]) && std::isfinite(in[1]);
         if (fin) a.hash(&f0, 0, in);
         for (size_t k = 1; k < G.f.size(); ++k) {
            const Fn& f = *G.f[k]; bool bad = false;
            if (!fin) {   // NaN in, NaN out everywhere; infinities of real arguments
               const bool nan_in = in[0] != in[0] || in[1] != in[1];
               a.count("NaN or infinite arguments");
               if (nan_in || f.kind != Z) bad = isnan2(f0, o[0]) != isnan2(f, o[k]) || (!nan_in && !isnan2(f, o[k]) && o[0][0] != o[k][0]);
            } else if (isnan2(f0, o[0]) || isnan2(f, o[k])) bad = isnan2(f0, o[0]) != isnan2(f, o[k]);
            else if (!finite2(f0, o[0]) || !finite2(f, o[k])) bad = o[0][0] != o[k][0] || o[0][1] != o[k][1] ? full_tol(f, 0, in) >= 0 : false;
            else {
               if (!same_value(f, 0, in, o[0], o[k], a)) bad = true;
               const ld m = hy(in[0], in[1]), e = epsl(f.prec), A = coarse_units(f, 0, in), dn = 8*denorm_of(f.prec);
               if (f.kind == Z && m < 1e-3L) for (int j = 0; j < 2; ++j) if (!(fabsl(o[0][j] - o[k][j]) <= A*e*(fabsl(o[0][j]) + m*m) + dn)) bad = true;
               if (in[0] == 0 && in[1] == 0) { a.count("zeros"); for (int j = 0; j < 2; ++j) if (o[0][j] != o[k][j] || (f.kind == Z && std::signbit(o[0][j]) != std::signbit(o[k][j]))) bad = true; }
            }
            if (bad) violation("differs from " + f0.name + ":", f, 0, in, "returns " + out_text(f, o[k]) + " but " + f0.name + " returns " + out_text(f0, o[0]));
            a.count("pairs compared");
         }
         if (c % 91 == 0 && i == 5) add_sample(call_text(f0, 0, in) + " -> " + out_text(f0, o[0]) + " and " + G.f[1]->name + " -> " + out_text(*G.f[1], o[1]));
      }
   });
}

// ---------------------------------------------------------------- C13: entry points of one language
static const Fn* dedicated(Kind k, Prec p, int n, Lang l) { for (const Fn& f : api()) if (f.kind == k && f.prec == p && f.order == n && f.lang == l) return &f; return nullptr; }
static void c13()
{
   const Fn& LiN = *find_fn("cpp:Li(n,z)"); const Fn& ClN = *find_fn("cpp:Cl(n,x)"); const Fn& SlN = *find_fn("cpp:Sl(n,x)");
   const long chunk = 512, nc = std::max(1L, cases(6000000)/chunk);
   std::vector<const Fn*> cplx = select([](const Fn& f) { return f.kind == Z && f.order >= 2 && f.order <= 4; });
   std::vector<const Fn*> low = select([](const Fn& f) { return f.order != GENERIC && f.prec != L; });
   guard_phase("entry points");
   parallel(nc, [&](long c, Acc& a) {
      Rng r(cfg.seed*7013 + c, 13); const int what = c % 5;
      for (int i = 0; i < chunk; ++i) {
         ld o1[2], o2[2]; const char* rel = ""; const Fn *f = 0, *g = 0; int64_t n = 0, gn = 0; ld in[2] = { 0, 0 }, gin[2] = { 0, 0 }; ld extra = 0;
         if (what == 0) {
            n = 2 + r.below(5); g = &LiN; gn = n; f = dedicated(Z, D, (int)n, CPP); const In x = r.below(6) ? gen_complex(r, D) : gen_any(*f, r); in[0] = gin[0] = x.re; in[1] = gin[1] = x.im; rel = "Li(n,z) and Li_n(z)";
         } else if (what == 1) {
            n = 1 + r.below(6); g = &ClN; gn = n; f = dedicated(C_, D, (int)n, CPP); const In x = r.below(6) ? gen_angle(r, D) : gen_any(*f, r); in[0] = gin[0] = x.re; rel = "Cl(n,x) and Cl_n(x)";
         } else if (what == 2) {   // complex on the real axis and real
            f = cplx[r.below(cplx.size())]; n = f->order; g = dedicated(R, f->prec, (int)n, f->lang); if (!g) continue;
            const In x = gen_real(r, f->prec); in[0] = gin[0] = x.re; in[1] = r.next() & 1 ? 0.0L : -0.0L; rel = "real and complex on the real axis";
         } else if (what == 3) {   // precisions
            f = low[r.below(low.size())]; n = f->order; g = dedicated(f->kind, f->prec == F && r.next() & 1 ? D : L, (int)n, f->lang == FTN ? CC : f->lang); if (!g) continue;
            const In x = r.below(4) ? gen_for(*f, r) : gen_tiny(*f, r); in[0] = gin[0] = x.re; in[1] = gin[1] = x.im; rel = "precisions";
         } else {                  // unit circle
            n = r.below(8) == 0 ? gen_order_pos(r, 1) : 1 + (int64_t)(r.next() & 1 ? r.below(6) : r.below(60)); const In x = gen_angle(r, D); if (fabsl(x.re) > 1e6L || fabsl(x.re) < 1e-300L) continue;
            f = r.next() & 1 ? &ClN : &SlN; if (n >= 2 && n <= 6 && f == &ClN && r.next() & 1) f = dedicated(C_, D, (int)n, CPP);
            in[0] = x.re; g = &LiN; gn = n; gin[0] = (double)cosl(x.re); gin[1] = (double)sinl(x.re); rel = "Clausen and polylogarithm on the unit circle";
         }
         if (!std::isfinite(in[0]) || !std::isfinite(in[1])) continue;
         call(*f, n, in, o1); call(*g, gn, gin, o2);
         a.evals++; a.count(std::string("pairs: ") + rel); a.hash(f, n, in);
         if (what == 2) { o1[1] = o2[1] = 0; }
         bool bad;
         if (what == 4) {
            const bool imag = (f->kind == C_) == (n % 2 == 0);
            const ld w[2] = { imag ? o2[1] : o2[0], 0 };
            if (!finite2(*f, o1) || !finite2(*g, o2)) { a.count("not judged: pole"); continue; }
            const ld d = fabsl(w[0] - o1[0]);
            bad = false;
            if (d > 8*epsl(D)*fabsl(o1[0])) {
               // z = (cos x, sin x) is rounded
               extra = full_tol(LiN, n, gin); const ld t = full_tol(*f, n, in);
               if (extra >= 0 && t >= 0) { const RefT<q> rr = reference<q>(LiN, n, gin), rc = reference<q>(*f, n, in); const q gap = (imag ? rr.im : rr.re) - rc.re; bad = !(d <= t + extra + (ld)(gap < 0 ? -gap : gap)); a.count("adjudicated with the conditioning"); }
            }
         } else if (!finite2(*f, o1) || !finite2(*g, o2)) {
            const bool eq = isnan2(*f, o1) == isnan2(*g, o2) && (isnan2(*f, o1) || o1[0] == o2[0]);
            bad = !eq && full_tol(*f, n, in) >= 0;
         } else bad = !same_value(*f, n, in, o1, o2, a);
         if (what == 0 && o1[1] == 0 && o2[1] == 0) { a.count("signs of zero imaginary parts"); bad |= std::signbit(o1[1]) != std::signbit(o2[1]); }
         if (bad) violation(std::string("inconsistent (") + rel + "):", *f, n, in, "returns " + out_text(*f, o1) + " but " + call_text(*g, gn, gin) + " returns " + out_text(*g, o2));
         if (c % 301 < 5 && i == 7) add_sample(call_text(*f, n, in) + " -> " + out_text(*f, o1) + "; " + call_text(*g, gn, gin) + " -> " + out_text(*g, o2));
      }
   });
}

// ---------------------------------------------------------------- C09: parity, period, reflection
static void c09()
{
   auto v = select([](const Fn& f) { return f.kind == C_ || f.kind == S_; });
   const long per = cases(60000), chunk = 512, nc = (per + chunk - 1)/chunk;
   guard_phase("parity and period");
   parallel(nc*(long)v.size(), [&](long c, Acc& a) {
      const Fn& f = *v[c % v.size()]; Rng r(cfg.seed*7019 + c, 9); int64_t n = f.order;
      for (int i = 0; i < chunk; ++i) {
         if (f.order == GENERIC && i % 32 == 0) n = gen_order_pos(r, 1);
         const bool odd = (f.kind == C_) == (ord(f, n) % 2 == 0);
         const ld sg = odd ? -1 : 1;
         const In x = gen_angle(r, f.prec); const ld in[2] = { x.re, 0 }, neg[2] = { -x.re, 0 }; ld o[2], p[2];
         call(f, n, in, o); call(f, n, neg, p); a.evals++; a.hash(&f, n, in); a.count("parity pairs");
         if (!(sg*p[0] == o[0]) && !(p[0] != p[0] && o[0] != o[0]))
            violation("parity", f, n, in, "returns " + out_text(f, o) + " but " + out_text(f, p) + " at the negative angle");
         if (fabsl(x.re) > 1e6L) continue;
         // shift by a multiple of 2 pi or reflect about pi
         const int k = (int)r.below(r.next() & 1 ? 3 : 41) - (r.next() & 1 ? 1 : 20); const bool refl = r.next() & 1;
         const ld y0 = (refl ? -x.re : x.re) + 2*PIl*k;
         const ld y[2] = { round_to(f.prec, y0), 0 };
         call(f, n, y, p); a.evals++; a.count(refl ? "reflected pairs" : "shifted pairs");
         const ld s = refl ? sg : 1;
         const ld d = fabsl(s*p[0] - o[0]);
         bool bad = false;
         if (std::isfinite(d) ? d > 4*epsl(f.prec)*fabsl(o[0]) : !(p[0] == o[0])) {
            const ld t1 = full_tol(f, n, in), t2 = full_tol(f, n, y);
            if (t1 >= 0 && t2 >= 0 && std::isfinite(d)) {
               const RefT<q> a1 = reference<q>(f, n, in), a2 = reference<q>(f, n, y); const q g = (q)s*a2.re - a1.re;
               bad = !(d <= 1.2L*(t1 + t2) + (ld)(g < 0 ? -g : g)); a.count("adjudicated with the conditioning");
            } else if (!std::isfinite(d)) bad = ord(f, n) != 1;
         }
         if (bad) violation(refl ? "reflection" : "period", f, n, in, "returns " + out_text(f, o) + " but " + out_text(f, p) + " at the equivalent angle " + fmt(y[0]));
         if (c % 211 == 0 && i == 9) add_sample(call_text(f, n, in) + " -> " + out_text(f, o) + ", equivalent angle " + fmt(y[0]) + " -> " + out_text(f, p));
      }
   });
}

// ---------------------------------------------------------------- C10: cut and mirror symmetry
static void c10()
{
   auto v = select([](const Fn& f) { return f.kind == Z; });
   const long per = cases(160000), chunk = 512, nc = (per + chunk - 1)/chunk;
   guard_phase("cut and mirror symmetry");
   parallel(nc*(long)v.size()*2, [&](long c, Acc& a) {
      const Fn& f = *v[(c/2) % v.size()]; Rng r(cfg.seed*7027 + c, 10); int64_t n = f.order; const ld e = epsl(f.prec), dn = denorm_of(f.prec);
      for (int i = 0; i < chunk; ++i) {
         if (f.order == GENERIC && i % 32 == 0) n = r.below(3) ? gen_order_pos(r, 1) : r.below(4) ? gen_order_small(r, -20, 30) : gen_order_small(r, -170, 0);
         ld o[2], p[2];
         if (c & 1) {               // conjugate pair
            const In x = r.below(5) ? gen_complex(r, f.prec) : gen_tiny(f, r); if (x.im == 0) continue;
            const ld in[2] = { x.re, x.im }, cj[2] = { x.re, -x.im };
            call(f, n, in, o); call(f, n, cj, p); a.evals++; a.hash(&f, n, in); a.count("conjugate pairs");
            bool bad = isnan2(f, o) != isnan2(f, p);
            if (finite2(f, o) != finite2(f, p)) bad = true;
            else if (finite2(f, o)) {
               const ld S = f.order == GENERIC ? 0.5L*coarse_units(f, n, in)*e*hy(o[0], o[1]) : 0;
               if (fabsl(o[0] - p[0]) > 64*e*fabsl(o[0]) + S + 8*dn || fabsl(o[1] + p[1]) > 64*e*fabsl(o[1]) + S + 8*dn) bad = true;
            }
            if (bad) violation("mirror symmetry", f, n, in, "returns " + out_text(f, o) + " but " + out_text(f, p) + " at the conjugate argument");
            continue;
         }
         const In xr = gen_real(r, f.prec); const ld x = xr.re; const ld s0 = r.next() & 1 ? 0.0L : -0.0L; const ld in[2] = { x, s0 };
         if (!std::isfinite(x) || x == 1) continue;
         call(f, n, in, o); a.evals++; a.hash(&f, n, in);
         const int64_t N = ord(f, n);
         if (N < 1) {               // no cut: rational functions
            a.count("axis, orders below one");
            if (finite2(f, o) && fabsl(o[1]) > coarse_units(f, n, in)*e*fabsl(o[0]) + 8*dn) violation("imaginary part on the axis", f, n, in, "returns " + out_text(f, o));
            continue;
         }
         if (x <= 1) {
            a.count("axis left of 1");
            const bool dedicated = f.order != GENERIC;
            if (dedicated ? o[1] != 0 : fabsl(o[1]) > coarse_units(f, n, in)*e*fabsl(o[0]) + 8*dn) violation("imaginary part on the axis", f, n, in, "returns " + out_text(f, o));
            else if (dedicated && (N == 2 || (N <= 4 && f.prec == D)) && std::signbit(o[1]) != std::signbit(s0)) violation("sign of the zero imaginary part", f, n, in, "returns " + out_text(f, o) + " for an imaginary part of " + fmt(s0));
            continue;
         }
         // on the cut: the value from below, whatever the sign of the zero
         a.count("points on the cut");
         const ld A = coarse_units(f, n, in);
         ld lx = x < 2 ? log1pl(x - 1) : logl(x), w = -PIl;
         if (N - 1 > 20000) w = lx < 1000 ? -0.0L : w; else for (int64_t k = 1; k < N; ++k) w *= lx/k;
         const ld mod = hy(o[0], o[1]);
         if (!finite2(f, o)) { if (full_tol(f, n, in) >= 0) violation("value on the cut", f, n, in, "returns " + out_text(f, o)); continue; }
         if (fabsl(o[1] - w) > A*e*(f.order == GENERIC && N > 6 ? mod : fabsl(w)*(1 + N) + (N > 4 ? 8*mod/A : 0)) + 8*dn)
            violation("imaginary part on the cut", f, n, in, "returns " + out_text(f, o) + ", limit from below has imaginary part " + fmt(w));
         const ld o0[2] = { o[0], o[1] };
         const ld other[2] = { x, -s0 }; call(f, n, other, p);
         if (!(fabsl(p[0] - o[0]) <= 8*e*fabsl(o[0]) && fabsl(p[1] - o[1]) <= 8*e*fabsl(o[1]))) violation("sign of the zero on the cut", f, n, in, "returns " + out_text(f, o) + " but " + out_text(f, p) + " for the other zero");
         // next to the cut
         for (int side = -1; side <= 1; side += 2) {
            const ld t = r.below(3) ? round_to(f.prec, x*powl(10, -(ld)(r.below(f.prec == F ? 20 : f.prec == D ? 280 : 3000)) - (f.prec == F ? 7 : f.prec == D ? 16 : 19))) : dn*(1 + r.below(3));
            if (t == 0) continue;
            const ld nb[2] = { x, side*t }; call(f, n, nb, p); a.evals++; a.count(side < 0 ? "points just below the cut" : "points just above the cut");
            const ld d = hy(p[0] - o0[0], side < 0 ? p[1] - o0[1] : p[1] + o0[1]);
            if (!(d <= 8*e*mod)) {
               const ld tt = full_tol(f, n, in); if (tt >= 0 && !(d <= 2*tt)) violation(side < 0 ? "continuity from below" : "jump across the cut", f, n, nb, "returns " + out_text(f, p) + ", on the cut " + out_text(f, o0));
            }
         }
         if (c % 211 == 0 && i == 9) add_sample(call_text(f, n, in) + " -> " + out_text(f, o0));
      }
   });
}

// ---------------------------------------------------------------- C11: special values and extreme arguments
static ld zeta_l(int64_t n) { return ref::zeta<ld>(n); }
static ld eta_l(int64_t n) { return ref::eta<ld>(n); }
static void point(const Fn& f, int64_t n, ld re, ld im, ld want_re, int im_rule, Acc& a)   // im_rule 0: zero, 1: same zero as the argument, 2: ignored
{
   const ld in[2] = { re, im }; ld o[2];
   call(f, n, in, o); a.evals++; a.hash(&f, n, in); a.count("special points");
   const ld e = epsl(f.prec);
   const ld w = f.prec == F ? (ld)(float)want_re : f.prec == D ? (ld)(double)want_re : want_re;
   bool ok = std::isinf(w) ? o[0] == w : w == 0 ? o[0] == 0 : fabsl(o[0] - want_re) <= (f.kind == C_ || f.kind == S_ ? 4 : 2)*e*fabsl(want_re) + denorm_of(f.prec);
   if (f.is_complex() && im_rule < 2 && o[1] != 0) ok = false;
   if (f.is_complex() && im_rule == 1 && std::signbit(o[1]) != std::signbit(im)) ok = false;
   if (w == 0 && f.kind != C_ && f.kind != S_ && re == 0 && std::signbit(o[0]) != std::signbit(re)) ok = false;
   if (!ok) violation("special value", f, n, in, "returns " + out_text(f, o) + " instead of " + fmt(want_re));
}
static void c11()
{
   guard_phase("special values");
   std::vector<int64_t> orders; for (int64_t n = -400; n <= 400; ++n) orders.push_back(n);
   for (int64_t n : { (int64_t)1 << 20, (int64_t)INT32_MAX, (int64_t)1 << 32, (int64_t)1 << 53, INT64_MAX - 1, INT64_MAX, INT64_MIN, INT64_MIN + 1, -((int64_t)1 << 40), -((int64_t)1 << 40) - 1, (int64_t)-1001, (int64_t)-1000 }) orders.push_back(n);
   parallel((long)api().size(), [&](long c, Acc& a) {
      const Fn& f = api()[c]; const ld inf = HUGE_VALL, nan = __builtin_nanl("");
      std::vector<int64_t> os = f.order == GENERIC ? orders : std::vector<int64_t>{ f.order };
      for (int64_t n : os) {
         if (f.kind == R || f.kind == Z) {
            for (ld z : { 0.0L, -0.0L }) for (ld y : { 0.0L, -0.0L }) { point(f, n, z, y, z, 1, a); if (f.kind == R) break; }
            for (ld y : { 0.0L, -0.0L }) {
               point(f, n, 1, y, n < 1 || n == 1 ? inf : zeta_l(n), n <= 1 ? 2 : 0, a);
               const ld e = eta_l(n);
               point(f, n, -1, y, n < 0 && n % 2 == 0 ? 0 : -e, 0, a);
               if (f.kind == R) break;
            }
         } else if (n >= 1) {
            const bool zl = (f.kind == C_) == (n % 2 != 0);
            for (ld z : { 0.0L, -0.0L }) { point(f, n, z, 0, zl ? (n == 1 ? inf : zeta_l(n)) : 0, 2, a); }
            // next to pi and 2 pi
            for (int k = -8; k <= 8; ++k) if (k) {
               const ld x = round_to(f.prec, k*PIl); const ld in[2] = { x, 0 }; ld o[2]; call(f, n, in, o); a.evals++; a.count("multiples of pi");
               const ld w = k % 2 ? (zl ? -eta_l(n) : 0) : (zl ? (n == 1 ? inf : zeta_l(n)) : 0);
               if (n == 1 && zl && k % 2 == 0) { if (!(o[0] > 30)) violation("special value", f, n, in, "returns " + out_text(f, o) + " at the pole"); continue; }
               if (n == 1 && !zl && k % 2 == 0) { if (!(fabsl(o[0]) <= 1.5707963267948968L)) violation("special value", f, n, in, "returns " + out_text(f, o)); continue; }
               const ld t = (f.prec == L ? 500 : 40)*epsl(f.prec)*(fabsl(w) + fabsl(x)*(n < 4 ? 40 : 4));
               if (!(fabsl(o[0] - w) <= t)) violation("special value", f, n, in, "returns " + out_text(f, o) + ", value at the multiple of pi is " + fmt(w));
            }
         }
         // NaN and infinities
         const ld some[] = { 0, -0.0L, 1, -1, 0.5L, 2, 1e-30L, 1e30L, inf, -inf, nan };
         for (ld y : some) {
            for (int k = 0; k < 2; ++k) {
               const ld in[2] = { k ? y : nan, f.kind == Z ? (k ? nan : y) : 0 }; ld o[2];
               if (f.kind != Z && k) continue;
               call(f, n, in, o); a.evals++; a.count("NaN arguments");
               if (!isnan2(f, o)) violation("NaN argument", f, n, in, "returns " + out_text(f, o));
            }
            if (f.kind != Z) break;
         }
         for (ld s : { inf, -inf }) {
            const ld in[2] = { s, 0 }; ld o[2];
            if (f.kind == C_ || f.kind == S_) { call(f, n, in, o); a.evals++; a.count("infinite arguments"); if (o[0] == o[0]) violation("infinite angle", f, n, in, "returns " + out_text(f, o)); }
            else if (f.kind == R || f.order == GENERIC) {
               call(f, n, in, o); a.evals++; a.count("infinite arguments");
               const ld w = n > 0 ? -inf : n == 0 ? -1 : 0;
               if (o[0] != w || (f.kind == Z && n <= 0 && o[1] != 0)) violation("infinite argument", f, n, in, "returns " + out_text(f, o) + " instead of " + fmt(w));
            }
         }
      }
   });
   // every other finite argument: finite results
   guard_phase("extreme arguments");
   const long chunk = 512, nc = cases(40000)/chunk + 1;
   parallel(nc*(long)api().size(), [&](long c, Acc& a) {
      const Fn& f = api()[c % api().size()]; Rng r(cfg.seed*7039 + c, 11); int64_t n = f.order;
      for (int i = 0; i < chunk; ++i) {
         if (f.order == GENERIC && i % 32 == 0) { n = r.below(4) ? gen_order_pos(r, f.kind == Z ? -30 : 1) : r.next() & 1 ? gen_order_small(r, f.kind == Z ? -400 : 1, 60) : gen_order_any(r); if (f.kind != Z && n < 1) n = 1 + r.below(50); }
         const In x = gen_any(f, r); ld in[2] = { x.re, x.im }, o[2];
         call(f, n, in, o); a.evals++;
         if (in[0] != in[0] || in[1] != in[1]) { a.count("NaN arguments"); if (!isnan2(f, o)) violation("NaN argument", f, n, in, "returns " + out_text(f, o)); continue; }
         if (!std::isfinite(in[0]) || !std::isfinite(in[1])) { a.count("infinite arguments"); continue; }
         a.count("finite extreme arguments"); a.hash(&f, n, in);
         if (finite2(f, o)) {
            // far out the asymptotic value must be met at least roughly
            if ((f.kind == R || f.kind == Z) && n >= 1 && n <= 60 && i % 4 == 0 && std::max(fabsl(in[0]), fabsl(in[1])) > (f.prec == F ? 1e18L : f.prec == D ? 1e150L : 1e2400L)) {
               const Tol t = tolerance(f, n, in); const ld w[2] = { (ld)t.re, (ld)t.im }; a.count("huge arguments: value compared");
               if (!(hypotl(o[0] - w[0], f.kind == Z ? o[1] - w[1] : 0) <= 1e-3L*hypotl(w[0], f.kind == Z ? w[1] : 0))) violation("huge argument", f, n, in, "returns " + out_text(f, o) + ", true value " + out_text(f, w));
            }
            continue;
         }
         if ((in[0] == 1 && in[1] == 0 && f.kind == Z && n <= 1) || n < -1500) continue;
         if (ord(f, n) == 1 && f.kind == C_ && o[0] == HUGE_VALL && fabsl(ref::mod2pi<ld>(in[0])) <= 2*epsl(f.prec)*fabsl(in[0])) continue;
         if (full_tol(f, n, in) >= 0) { const Tol t = tolerance(f, n, in); const ld w[2] = { (ld)t.re, (ld)t.im }; violation("finite argument", f, n, in, "returns " + out_text(f, o) + ", true value " + out_text(f, w)); }
         else a.count("true value overflows");
      }
   });
}

// ---------------------------------------------------------------- C23: tiny arguments
static void c23()
{
   auto v = select([](const Fn& f) { return f.kind == R || f.kind == Z || f.order == GENERIC || f.order % 2 == 0; });
   const long per = cases(100000), chunk = 512, nc = (per + chunk - 1)/chunk;
   guard_phase("tiny arguments");
   parallel(nc*(long)v.size(), [&](long c, Acc& a) {
      const Fn& f = *v[c % v.size()]; Rng r(cfg.seed*7043 + c, 23); int64_t n = f.order;
      for (int i = 0; i < chunk; ++i) {
         if (f.order == GENERIC && i % 32 == 0) {
            if (f.kind == Z) n = r.below(4) == 0 ? gen_order_pos(r, 0) : gen_order_small(r, -8, 40);
            else { n = f.kind == C_ ? 2*(1 + r.below(20)) : 3 + 2*r.below(20); }
         }
         const In x = gen_tiny(f, r); const ld in[2] = { x.re, x.im }; ld o[2];
         if (in[0] == 0 && in[1] == 0) continue;
         call(f, n, in, o);
         check_acc(f, n, in, o, a, "tiny argument", f.kind == Z || f.kind == R ? 0.8 : 1);
         const ld m = hy(in[0], in[1]), e = epsl(f.prec);
         a.count(m < max_of(f.prec)*0 + (f.prec == F ? (ld)FLT_MIN : f.prec == D ? (ld)DBL_MIN : LDBL_MIN) ? "subnormal arguments" : m < e ? "arguments below eps" : "arguments above eps");
         // in the subnormal range a result may be rounded to zero only if the true value is below the smallest number
         if (o[0] == 0 && o[1] == 0) { const Tol t = tolerance(f, n, in); if (t.mod > (q)denorm_of(f.prec)) violation("zero for a non-zero argument", f, n, in, "returns zero"); }
         if (f.kind == Z && m < 1e-2L) {
            // each component to its own leading digits, up to rounding errors of the second order term
            const RefT<ld> w = f.prec == L ? RefT<ld>{ 0, 0 } : reference<ld>(f, n, in); ld wr = w.re, wi = w.im;
            if (f.prec == L) { const RefT<q> z = reference<q>(f, n, in); wr = (ld)z.re; wi = (ld)z.im; }
            const ld A = 0.5L*coarse_units(f, n, in), N = (ld)ord(f, n), q2 = m*m*(N < 0 ? powl(2, -N) : 1) + 8*denorm_of(f.prec);
            a.count("components judged");
            const ld tr = A*e*(fabsl(wr) + q2) + 8*denorm_of(f.prec), ti = A*e*(fabsl(wi) + q2) + 8*denorm_of(f.prec);
            a.max(std::string("component ") + f.name, (double)std::max(fabsl(o[0] - wr)/tr, fabsl(o[1] - wi)/ti), &f, n, in);
            if (!(fabsl(o[0] - wr) <= tr) || !(fabsl(o[1] - wi) <= ti)) { const ld w2[2] = { wr, wi }; violation("component of a tiny argument", f, n, in, "returns " + out_text(f, o) + ", true value " + out_text(f, w2)); }
         }
         if (c % 151 == 0 && i == 9) add_sample(call_text(f, n, in) + " -> " + out_text(f, o));
      }
   });
}

// ---------------------------------------------------------------- C19: functional identities
struct Term { const Fn* f; int64_t n; ld in[2]; ld cr, ci; };   // complex coefficient
static void identity(const char* name, std::vector<Term> t, ld wr, ld wi, ld werr, Acc& a, bool re_only, bool im_only = false)
{
   ld sr = 0, si = 0, scale = hy(wr, wi); Prec p = F; p = t[0].f->prec;
   std::string txt;
   for (Term& k : t) {
      ld o[2]; call(*k.f, k.n, k.in, o); a.evals++;
      sr += k.cr*o[0] - k.ci*o[1]; si += k.cr*o[1] + k.ci*o[0]; scale += hy(k.cr, k.ci)*hy(o[0], o[1]);
      txt += (txt.empty() ? "" : "; ") + call_text(*k.f, k.n, k.in) + " -> " + out_text(*k.f, o);
   }
   a.hash(t[0].f, t[0].n, t[0].in); a.count(std::string("identity: ") + name);
   const ld d = re_only ? fabsl(sr - wr) : im_only ? fabsl(si - wi) : hy(sr - wr, si - wi);
   if (d <= 8*epsl(p)*scale) return;
   ld tol = werr + 16*epsl(p)*hy(wr, wi);
   for (Term& k : t) { const ld x = full_tol(*k.f, k.n, k.in); if (x < 0) { a.count("not judged: true value (nearly) overflows"); return; } tol += 1.2L*hy(k.cr, k.ci)*x; }
   a.count("identities adjudicated with the conditioning");
   if (!(d <= tol)) violation(std::string("identity (") + name + ")", *t[0].f, t[0].n, t[0].in, txt + "; expected combination (" + fmt(wr) + "," + fmt(wi) + "), got (" + fmt(sr) + "," + fmt(si) + ")");
   a.max(std::string("identity ") + name, (double)(d/tol), t[0].f, t[0].n, t[0].in);
}
static Term term(const Fn& f, int64_t n, ld re, ld im, ld c = 1) { Term t; t.f = &f; t.n = n; t.in[0] = round_to(f.prec, re); t.in[1] = f.kind == Z ? round_to(f.prec, im) : 0; t.cr = c; t.ci = 0; return t; }
static void inversion_rhs(int64_t n, ld re, ld im, ld& wr, ld& wi, ld& mag)   // of Li_n(z) + (-1)^n Li_n(1/z)
{
   if (n < 0) { wr = wi = mag = 0; return; }
   if (n == 0) { wr = -1; wi = 0; mag = 1; return; }
   ref::cl mz; mz.re = -re; mz.im = -im; const ref::cl L = ref::clog<ld>(mz);
   ref::cl p; p.re = 1; p.im = 0; wr = wi = mag = 0;
   for (int64_t j = 0; j <= n; ++j) {
      if (j) { const ld a = (p.re*L.re - p.im*L.im)/j, b = (p.re*L.im + p.im*L.re)/j; p.re = a; p.im = b; }
      const ld c = j == n ? -1 : (n - j) % 2 == 0 ? -2*eta_l(n - j) : 0;
      wr += c*p.re; wi += c*p.im; mag += fabsl(c)*hy(p.re, p.im);
      if (j > 60 && j > 4*hy(L.re, L.im) && hy(p.re, p.im) < 1e-24L*hy(wr, wi)) break;
   }
}
static void c19()
{
   auto zs = select([](const Fn& f) { return f.kind == Z; });
   auto rs = select([](const Fn& f) { return f.kind == R; });
   auto cs = select([](const Fn& f) { return f.kind == C_ || f.kind == S_; });
   auto l2 = select([](const Fn& f) { return f.order == 2 && (f.kind == Z || f.kind == R); });
   const Fn& LiN = *find_fn("cpp:Li(n,z)");
   const long chunk = 256, nc = std::max(1L, cases(2600000)/chunk);
   guard_phase("identities");
   parallel(nc, [&](long c, Acc& a) {
      Rng r(cfg.seed*7057 + c, 19);
      const Fn& fz = c/8 % 3 == 0 ? LiN : *zs[(c/24) % zs.size()]; int64_t n = fz.order;
      for (int i = 0; i < chunk; ++i) {
         if (fz.order == GENERIC && i % 4 == 0) n = r.next() & 1 ? gen_order_small(r, -12, 40) : r.below(3) ? gen_order_small(r, -100, 120) : gen_order_pos(r, 1);
         switch (c % 8) {
         case 0: case 1: case 2: {
            const In x = gen_complex(r, fz.prec); const ld m = hy(x.re, x.im); const ld e = epsl(fz.prec);
            if (x.im == 0 || !(m > 1e-6L && m < 1e6L) || fabsl(x.im) < 1e-12L*fabsl(x.re)) break;
            const Prec p = fz.prec;
            if (c % 8 == 0) {
               ref::cl z; z.re = x.re; z.im = x.im; const ld d2 = x.re*x.re + x.im*x.im;
               ld wr, wi, mag; inversion_rhs(n, x.re, x.im, wr, wi, mag);
               if (n > 100 && m > 100) break;
               // the reciprocal is rounded: its effect on the value is part of the tolerance of that call
               identity("inversion", { term(fz, n, x.re, x.im), term(fz, n, x.re/d2, -x.im/d2, n % 2 ? -1 : 1) }, wr, wi, 32*e*(p == L ? 4 : 1)*mag, a, false);
            } else if (c % 8 == 1) {
               if (n < -60 || n > 10000) break;
               identity("duplication", { term(fz, n, x.re, x.im), term(fz, n, -x.re, -x.im), term(fz, n, x.re*x.re - x.im*x.im, 2*x.re*x.im, -powl(2, 1 - (ld)n)) }, 0, 0, 0, a, false);
            } else {
               if (m > 0.999L || n < -40 || n > 10000) break;
               const int k = 3 + (int)r.below(4); std::vector<Term> t; ld pr = 1, pi = 0;
               for (int j = 0; j < k; ++j) { const ld cs = cosl(2*PIl*j/k), sn = sinl(2*PIl*j/k); t.push_back(term(fz, n, x.re*cs - x.im*sn, x.re*sn + x.im*cs)); const ld q0 = pr*x.re - pi*x.im; pi = pr*x.im + pi*x.re; pr = q0; }
               t.push_back(term(fz, n, pr, pi, -powl(k, 1 - (ld)n)));
               bool axis = false; for (auto& y : t) if (fabsl(y.in[1]) < 1e-10L && y.in[0] > 0.9L) axis = true;
               if (!axis) identity("roots of unity", t, 0, 0, 0, a, false);
            }
            break; }
         case 3: {   // real Li_n: duplication, inversion
            const Fn& f = *rs[r.below(rs.size())]; const In x = gen_real(r, f.prec); const ld m = fabsl(x.re); if (!(m > 1e-8L && m < 1e8L)) break;
            if (r.next() & 1) identity("duplication", { term(f, 0, x.re, 0), term(f, 0, -x.re, 0), term(f, 0, x.re*x.re, 0, -powl(2, 1 - f.order)) }, 0, 0, 0, a, true);
            else {
               ld wr, wi, mag; inversion_rhs(f.order, x.re, x.re > 0 ? -1e-4900L : 0.0L, wr, wi, mag);
               identity("inversion", { term(f, 0, x.re, 0), term(f, 0, 1/x.re, 0, f.order % 2 ? -1 : 1) }, wr, 0, 16*epsl(f.prec)*mag, a, true);
            }
            break; }
         case 4: {   // Euler, Landen
            const Fn& f = *l2[r.below(l2.size())]; const In x = gen_for(f, r); const ld m = hy(x.re, x.im); const ld e = epsl(f.prec);
            if (!(m > 1e-6L && m < 1e5L)) break;
            if (f.kind == R && (x.re >= 1 || x.re <= 0)) break;
            if (f.kind == Z && fabsl(x.im) < 1e-10L*m) break;
            ref::cl z, u; z.re = x.re; z.im = f.kind == Z ? x.im : 0; u.re = 1 - z.re; u.im = -z.im; if (hy(u.re, u.im) < 1e-6L) break;
            const ref::cl L0 = ref::clog<ld>(z), L1 = ref::clog<ld>(u);
            if (r.next() & 1) {
               const ld wr = PIl*PIl/6 - (L0.re*L1.re - L0.im*L1.im), wi = -(L0.re*L1.im + L0.im*L1.re), cond = hy(L0.re, L0.im) + hy(L1.re, L1.im) + hy(z.re, z.im)/hy(u.re, u.im);
               identity("Euler reflection", { term(f, 0, z.re, z.im), term(f, 0, u.re, u.im) }, wr, wi, 8*e*(cond + hy(L0.re, L0.im)*(1 + hy(z.re, z.im)/hy(u.re, u.im))), a, f.kind == R);
            } else {
               const ld d = u.re*u.re + u.im*u.im; const ld yr = -(z.re*u.re + z.im*u.im)/d, yi = -(z.im*u.re - z.re*u.im)/d;
               const ld wr = -(L1.re*L1.re - L1.im*L1.im)/2, wi = -L1.re*L1.im;
               identity("Landen", { term(f, 0, z.re, z.im), term(f, 0, yr, yi) }, wr, wi, 16*e*hy(L1.re, L1.im)*(1 + hy(z.re, z.im)/hy(u.re, u.im)), a, f.kind == R);
            }
            break; }
         case 5: {   // Clausen duplication
            const Fn& f = r.below(3) ? *cs[r.below(cs.size())] : *find_fn(r.next() & 1 ? "cpp:Cl(n,x)" : "cpp:Sl(n,x)"); int64_t k = f.order == GENERIC ? gen_order_small(r, 1, r.next() & 1 ? 30 : 100) : f.order; const In x = gen_angle(r, f.prec); if (fabsl(x.re) > 1e3L) break;
            const ld y = round_to(f.prec, PIl - x.re); const bool sine = (f.kind == C_) == (k % 2 == 0);
            const ld c2 = powl(2, (ld)k - 1);
            if (k == 1 && (fabsl(remainderl(x.re, PIl)) < 1e-3L)) break;
            // pi - x is rounded and 2x is exact: extra slope term
            const ld slope = f.kind == C_ && k == 2 ? fabsl(logl(fabsl(2*sinl(x.re/2)) + epsl(f.prec))) + fabsl(logl(fabsl(2*cosl(x.re/2)) + epsl(f.prec))) + 1 : k == 1 ? 2e3L : 3;
            identity("Clausen duplication", { term(f, k, 2*x.re, 0), term(f, k, x.re, 0, -c2), term(f, k, y, 0, sine ? c2 : -c2) }, 0, 0, c2*slope*4*epsl(f.prec)*(4 + fabsl(x.re)), a, true);
            break; }
         default: {  // derivative as a finite difference, between orders
            const Prec p = D; const int N = 2 + (int)r.below(5); const bool gen = r.next() & 1; const int64_t k = gen ? gen_order_small(r, -20, r.next() & 1 ? 20 : 60) : N; if (k == 1) break;
            const Lang lg = (Lang)r.below(3);
            const Fn& f = gen ? LiN : *dedicated(Z, p, N, lg); const Fn* gp = gen ? &LiN : N > 2 ? dedicated(Z, p, N - 1, lg) : &LiN;
            const In x = gen_complex(r, p); const ld m = hy(x.re, x.im); if (!(m > 1e-3L && m < 1e4L) || fabsl(x.im) < 1e-2L*m || hy(x.re - 1, x.im) < 0.05L) break;
            const ld h = 1e-4L, eh = expl(h);
            std::vector<Term> t = { term(f, k, x.re*eh, x.im*eh, 1/(2*h)), term(f, k, x.re/eh, x.im/eh, -1/(2*h)), term(*gp, k - 1, x.re, x.im, -1) };
            // truncation h^2/6 |Li_{k-3}|, bounded by the reference
            ref::cl z; z.re = x.re; z.im = x.im; const ref::cl d3 = ref::Li<ld>(k - 3, z), d1 = ref::Li<ld>(k - 1, z);
            identity("derivative", t, 0, 0, h*h/4*hy(d3.re, d3.im) + epsl(p)/h*2*hy(d1.re, d1.im), a, false);
            break; }
         }
      }
   });
}

// ---------------------------------------------------------------- C22: no jumps, monotone
// two neighbouring arguments
static void no_jump(const Fn& f, int64_t n, const ld* in, const ld* nb, Acc& a)
{
   const ld e = epsl(f.prec); ld o[2], p[2];
   if (!std::isfinite(in[0] + in[1]) || !std::isfinite(nb[0] + nb[1])) return;
   if (f.kind == Z && (in[1] > 0) != (nb[1] > 0) && std::max(in[0], nb[0]) > 0.999L) return;       // the cut
   call(f, n, in, o); call(f, n, nb, p); a.evals++; a.hash(&f, n, in); a.count("neighbouring arguments");
   if (!finite2(f, o) || !finite2(f, p)) return;                   // judged by C11
   const ld d = hy(o[0] - p[0], o[1] - p[1]), m = hy(o[0], o[1]);
   if (d <= 12*e*m + 8*denorm_of(f.prec)) return;
   if (huge_angle(f, in)) { a.count("huge angles, not judged"); return; }
   const ld t1 = full_tol(f, n, in), t2 = full_tol(f, n, nb); if (t1 < 0 || t2 < 0) return;
   a.count("adjudicated with the conditioning");
   const RefT<q> w0 = reference<q>(f, n, in), w1 = reference<q>(f, n, nb); const ld gap = hy((ld)(w1.re - w0.re), (ld)(w1.im - w0.im));
   if (!(d <= 1.3L*std::max(t1, t2) + gap)) violation("jump", f, n, in, "returns " + out_text(f, o) + " but " + out_text(f, p) + " at the neighbouring argument (" + fmt(nb[0]) + "," + fmt(nb[1]) + ")");
}
static void c22()
{
   auto v = select([](const Fn&) { return true; });
   guard_phase("continuity where the implementations switch");
   parallel((long)v.size(), [&](long c, Acc& a) {
      const Fn& f = *v[c];
      for (const Switch& s : switches(f)) {
         a.count("neighbours on either side of a decision");
         no_jump(f, s.n, s.a, s.b, a); no_jump(f, s.n, s.b, s.a, a);
         for (int k = 0; k < (f.kind == Z ? 4 : 1); ++k) {            // the mirror images are decisions, too
            const ld sx = k & 1 ? -1 : 1, sy = k & 2 ? -1 : 1, x[2] = { sx*s.a[0], sy*s.a[1] }, y[2] = { sx*s.b[0], sy*s.b[1] };
            if (k) no_jump(f, s.n, x, y, a);
            for (int i = 1; i <= 3; ++i) {                           // and the next few pairs
               const int d = s.b[0] > s.a[0] ? 1 : -1; const ld x1[2] = { ulp_step(f.prec, x[0], -i*d), x[1] }, y1[2] = { ulp_step(f.prec, y[0], i*d), y[1] };
               no_jump(f, s.n, x1, y1, a);
            }
         }
      }
   });
   const long per = cases(70000), chunk = 512, nc = (per + chunk - 1)/chunk;
   guard_phase("continuity");
   parallel(nc*(long)v.size(), [&](long c, Acc& a) {
      const Fn& f = *v[c % v.size()]; Rng r(cfg.seed*7069 + c, 22); int64_t n = f.order; const ld e = epsl(f.prec);
      for (int i = 0; i < chunk; ++i) {
         if (f.order == GENERIC && i % 32 == 0) n = f.kind == Z ? (r.below(4) ? gen_order_small(r, 0, 60) : r.next() & 1 ? gen_order_small(r, -170, -1) : gen_order_pos(r, 7)) : gen_order_small(r, 1, 40);
         const In x = gen_for(f, r); ld in[2] = { x.re, x.im }, nb[2] = { x.re, x.im }, o[2], p[2];
         const int k1 = (int)r.below(5) - 2, k2 = (int)r.below(5) - 2; nb[0] = ulp_step(f.prec, nb[0], k1 ? k1 : 1); if (f.kind == Z) { nb[1] = ulp_step(f.prec, nb[1], k2); if (r.below(4) == 0) nb[0] = in[0]; }
         no_jump(f, n, in, nb, a);
         // monotone over steps larger than rounding
         if (f.kind == Z || (f.order == GENERIC && n > 12)) continue;
         const ld step = powl(10, f.prec == F ? r.U(-5, -1) : f.prec == D ? r.U(-13, -1) : r.U(-15, -1)); const ld y = round_to(f.prec, in[0]*(1 + step)); if (!std::isfinite(y) || y == in[0] || fabsl(y) > 1e6L || fabsl(y) < 1e-30L) continue;
         const ld b[2] = { y, 0 }; const RefT<ld> w0 = reference<ld>(f, n, in), w1 = reference<ld>(f, n, b); const ld dw = w1.re - w0.re;
         if (f.kind != R && ord(f, n) == 1) {                         // jump of Sl_1, pole of Cl_1: not within the rounding of the angle
            const ld y0 = ref::mod2pi<ld>(in[0]), y1 = ref::mod2pi<ld>(y), w = 8*e*fabsl(in[0]);
            if (fabsl(y0) < w || fabsl(y1) < w || fabsl(fabsl(y0) - 2*PIl) < w || fabsl(fabsl(y1) - 2*PIl) < w) continue;
         }
         const ld A = coarse_units(f, n, in);
         if (!std::isfinite(dw) || fabsl(dw) < 4*A*e*(fabsl(w0.re) + (f.kind == R ? 1 : 4*fabsl(in[0]) + 8)) || (f.prec == L && fabsl(dw) < 1e-15L*(1 + fabsl(w0.re)))) continue;
         call(f, n, in, o); call(f, n, b, p); a.evals++; a.count("monotone steps"); if (!finite2(f, o)) continue;
         if (!((p[0] - o[0])*(dw > 0 ? 1 : -1) > 0)) violation("monotone", f, n, in, "returns " + out_text(f, o) + " but " + out_text(f, p) + " at " + fmt(y) + ", where the function is " + (dw > 0 ? "larger" : "smaller"));
      }
   });
}

const Check CHECKS[] = { {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C19", c19}, {"C22", c22}, {"C23", c23}, {0, 0} };
