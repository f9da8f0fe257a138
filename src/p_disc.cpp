// Finds where the implementations switch: the libraries are compiled with -O0 -fsanitize-coverage=trace-pc, the set of
// basic blocks a call visits is its path, and bisection between two arguments (or orders) with different paths ends at
// two neighbours on either side of a decision. The points are inputs for the other checks.
#include "core.hpp"
#include <cmath>
#include <csetjmp>
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>

static thread_local uint64_t seen_pc[1 << 14], seen_gen[1 << 14], gen = 0, sum = 0, blocks = 0;
static thread_local bool on = false;
static thread_local sigjmp_buf too_long;
extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc()
{
   if (!on) return;
   if (++blocks > 1000000) { on = false; siglongjmp(too_long, 1); }
   const uint64_t pc = (uint64_t)__builtin_return_address(0);
   uint64_t h = pc*0x9e3779b97f4a7c15ull, i = h >> 50;
   for (int k = 0; k < 16; ++k, i = (i + 1) & ((1 << 14) - 1)) {
      if (seen_gen[i] == gen) { if (seen_pc[i] == pc) return; continue; }
      seen_gen[i] = gen; seen_pc[i] = pc; h ^= h >> 31; sum += h*0xbf58476d1ce4e5b9ull; return;
   }
}
// comparisons of float and double values: the first one of each site in a call
struct Site { uint64_t pc; double d; };
static thread_local Site site[256];
static thread_local int nsite = 0;
static thread_local bool compare = false;
static void note(uint64_t pc, double a, double b)
{
   for (int i = 0; i < nsite; ++i) if (site[i].pc == pc) return;
   if (nsite < 256 && std::isfinite(a) && std::isfinite(b)) { site[nsite].pc = pc; site[nsite++].d = a - b; }
}
extern "C" {
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_cmpd(double a, double b) { if (on && compare) note((uint64_t)__builtin_return_address(0), a, b); }
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_cmpf(float a, float b) { if (on && compare) note((uint64_t)__builtin_return_address(0), a, b); }
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_const_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_const_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_const_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_const_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_switch(uint64_t, void*) {}
}
static uint64_t path(const Fn& f, int64_t n, const ld* in)
{
   ld out[2];
   gen++; sum = 0; blocks = 0; nsite = 0;
   if (sigsetjmp(too_long, 0)) { announce(f, n, in, false); return 0; }
   announce(f, n, in, true);
   on = true; f.call(n, in, out); on = false;
   announce(f, n, in, false);
   return sum ? sum : 1;
}
static ld middle(ld a, ld b, ld tiny)
{
   if ((a > 0 && b < 0) || (a < 0 && b > 0)) return 0;
   const ld s = a < 0 || b < 0 ? -1 : 1; ld x = fabsl(a), y = fabsl(b);
   if (x < tiny) x = x > 0 ? x : y > 4*tiny ? tiny : 0;
   if (y < tiny) y = y > 0 ? y : x > 4*tiny ? tiny : 0;
   if (x == 0 || y == 0) return s*(x + y)/2;
   return x > 2*y || y > 2*x ? s*sqrtl(x)*sqrtl(y) : s*(x/2 + y/2);
}
static double diff_at(const Fn& f, int64_t n, const ld* in, uint64_t pc)
{
   if (!std::isfinite(in[0]) || !std::isfinite(in[1]) || !path(f, n, in)) return NAN;
   for (int i = 0; i < nsite; ++i) if (site[i].pc == pc) return site[i].d;
   return NAN;
}
// Comparisons that come out the same way for all random arguments (|x - c| < w with a small w, x == c): the difference of
// the two sides is minimised until its sign changes or it vanishes. Returns the last two points.
static bool minimise(const Fn& f, int64_t n, uint64_t pc, const ld* start, ld* a, ld* b)
{
   ld x[2] = { start[0], start[1] }, z[2];
   double d = diff_at(f, n, x, pc); if (!(d == d) || d == 0) return false;
   ld h = std::fmax(fabsl(x[0]), fabsl(x[1]));
   const int dirs = f.kind == Z ? 4 : 2;
   for (int k = 0, calls = 0; k < 70 && calls < 500; ) {
      bool better = false;
      for (int i = 0; i < dirs && !better; ++i) {
         z[0] = x[0]; z[1] = x[1]; z[i/2] = k < 66 ? round_to(f.prec, x[i/2] + (i & 1 ? -h : h)) : ulp_step(f.prec, x[i/2], i & 1 ? -1 : 1);
         if (z[i/2] == x[i/2]) continue;
         const double e = diff_at(f, n, z, pc); ++calls;
         if (!(e == e)) continue;
         if (e == 0 || (e < 0) != (d < 0)) { for (int j = 0; j < 2; ++j) { a[j] = x[j]; b[j] = z[j]; } return true; }
         if (std::fabs(e) < std::fabs(d)) { d = e; x[0] = z[0]; x[1] = z[1]; better = true; }
      }
      if (!better) { h /= 2; ++k; }
   }
   return false;
}
static std::string hex(ld x) { char b[64]; snprintf(b, sizeof b, "%La", x); return b; }

static void disc()
{
   const auto v = select([](const Fn&) { return true; });
   std::vector<std::string> text(v.size()*8);
   guard_phase("discovery");
   parallel((long)text.size(), [&](long c, Acc& a) {
      const Fn& f = *v[c/8]; Rng r(7919 + c, 88); std::ostringstream o;
      std::map<std::pair<uint64_t, uint64_t>, int> times; std::map<std::pair<ld, ld>, int> dup; std::map<int64_t, int> dn;
      const bool g = f.order == GENERIC; const int trials = (int)cases(g ? 700 : f.kind == Z ? 200 : 500, 5);
      std::vector<int64_t> ns(1, f.order);
      if (g) {
         if (f.kind == Z) ns = { -1, -2, -3, -5, -6, -12, -20, -35, -60, -100, -150, -169, -170, -171, -180, -230, -400, -1000, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 34, 60, 120, 400 };
         else ns = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 20, 31, 40, 60, 100 };
         for (int64_t n : cfg.ifresh) if (std::llabs(n) < 2000) for (int64_t m : { n, n - 1, n + 1, -n }) ns.push_back(m);
      }
      for (int i = 0; i < trials; ++i) {
         int64_t n = g ? ns[r.below(ns.size())] : f.order;
         const In p = gen_for(f, r), q = gen_for(f, r);
         if (!std::isfinite(p.re + p.im + q.re + q.im)) continue;
         if (g && r.below(5) == 0) {                                    // the order
            int64_t lo = gen_order_any(r), hi = gen_order_any(r); const ld in[2] = { p.re, f.kind == Z ? p.im : 0 };
            uint64_t x = path(f, lo, in), y = path(f, hi, in);
            if (x == y || !x || !y) continue;
            uint64_t z = x;
            while ((uint64_t)(lo < hi ? hi - lo : lo - hi) > 1) {
               const int64_t m = (lo < 0) != (hi < 0) ? 0 == lo || 0 == hi ? (lo + hi)/2 : 0 : lo/2 + hi/2 + (lo % 2 + hi % 2)/2;
               if (m == lo || m == hi) break;
               const int64_t mid = std::llabs(lo - m) > 1000 && lo && hi && (lo < 0) == (hi < 0) ? (int64_t)middle(lo, hi, 1) : m;
               if (mid == lo || mid == hi) break;
               if ((z = path(f, mid, in)) == x) lo = mid; else { hi = mid; if (!z) break; }
            }
            if (dn[lo]++ == 0) o << "N " << f.name << "|" << lo << " 0 0 0 0\n";
            if (dn[hi]++ == 0) o << "N " << f.name << "|" << hi << " 0 0 0 0\n";
            a.count("orders found");
            continue;
         }
         const int kind = f.kind == Z ? (int)r.below(5) : 5;
         const ld tiny = denorm_of(f.prec)*4, ma = hypotl(p.re, p.im), mb = hypotl(q.re, q.im), ta = atan2l(p.im, p.re), tb = atan2l(q.im, q.re);
         auto at = [&](ld t, ld* in) {
            switch (kind) {
            case 0: in[0] = t; in[1] = p.im; break;
            case 1: in[0] = p.re; in[1] = t; break;
            case 2: in[0] = t*cosl(ta); in[1] = t*sinl(ta); break;
            case 3: in[0] = ma*cosl(t); in[1] = ma*sinl(t); break;
            case 4: in[0] = p.re + t*(q.re - p.re); in[1] = p.im + t*(q.im - p.im); break;
            default: in[0] = t; in[1] = 0;
            }
            in[0] = round_to(f.prec, in[0]); in[1] = round_to(f.prec, in[1]);
         };
         ld lo = kind == 0 || kind == 5 ? p.re : kind == 1 ? p.im : kind == 2 ? ma : kind == 3 ? ta : 0, hi = kind == 0 || kind == 5 ? q.re : kind == 1 ? q.im : kind == 2 ? mb : kind == 3 ? tb : 1;
         ld x[2], y[2], z[2];
         at(lo, x); at(hi, y);
         uint64_t pl = path(f, n, x); const uint64_t pe = path(f, n, y);
         const ld end = hi, ye[2] = { y[0], y[1] };
         for (int walk = 0; walk < 5 && pl && pe && pl != pe; ++walk) {      // one decision after the other on the way
            uint64_t ph = pe; hi = end; y[0] = ye[0]; y[1] = ye[1];
            bool dead = false;
            for (int k = 0; k < 400; ++k) {
               const ld m = kind < 2 || kind == 5 ? round_to(f.prec, middle(lo, hi, tiny)) : kind == 2 ? middle(lo, hi, tiny) : (lo + hi)/2;
               if (m == lo || m == hi) break;
               at(m, z);
               if ((z[0] == x[0] && z[1] == x[1])) { lo = m; continue; }
               if ((z[0] == y[0] && z[1] == y[1])) { hi = m; continue; }
               const uint64_t pm = path(f, n, z);
               if (!pm) { dead = true; break; }
               if (pm == pl) { lo = m; x[0] = z[0]; x[1] = z[1]; } else { hi = m; ph = pm; y[0] = z[0]; y[1] = z[1]; }
            }
            if (dead || !std::isfinite(x[0] + x[1] + y[0] + y[1])) break;
            if (++times[std::make_pair(std::min(pl, ph), std::max(pl, ph))] <= (f.kind == Z ? 12 : 4) && !dup[std::make_pair(x[0], x[1])]++ && !dup[std::make_pair(y[0], y[1])]++) {
               o << "P " << f.name << "|" << n << " " << hex(x[0]) << " " << hex(x[1]) << " " << hex(y[0]) << " " << hex(y[1]) << "\n";
               a.count("points found"); a.count("points " + f.name);
            }
            lo = hi; x[0] = y[0]; x[1] = y[1]; pl = ph;                       // from the other side onwards
         }
      }
      if (c % 8 < 4) {
         compare = true;
         struct Sign { bool pos = false, neg = false; std::vector<std::pair<int64_t, In>> at; };
         std::map<uint64_t, Sign> sites;
         for (int i = 0; i < (g ? 500 : 150); ++i) {
            const int64_t n = g ? ns[r.below(ns.size())] : f.order; const In p = gen_for(f, r); const ld in[2] = { p.re, f.kind == Z ? p.im : 0 };
            if (!std::isfinite(p.re + p.im) || !path(f, n, in)) continue;
            for (int k = 0; k < nsite; ++k) { Sign& s = sites[site[k].pc]; if (site[k].d > 0) s.pos = true; else if (site[k].d < 0) s.neg = true; else continue; if (s.at.size() < 24) s.at.push_back(std::make_pair(n, p)); }
         }
         for (auto& s : sites) {
            a.count("comparisons of floating-point numbers");
            if (s.second.pos && s.second.neg) {          // x == c: a point where the difference vanishes and the path is a third one
               const auto& at = s.second.at; int found = 0;
               for (size_t i = 0; i + 1 < at.size() && !found; ++i) {
                  if (at[i].first != at[i + 1].first) continue;
                  const int64_t n = at[i].first;
                  ld x[2] = { at[i].second.re, f.kind == Z ? at[i].second.im : 0 }, y[2] = { at[i + 1].second.re, f.kind == Z ? at[i + 1].second.im : 0 }, z[2];
                  const double d = diff_at(f, n, x, s.first), e0 = diff_at(f, n, y, s.first); if (!(d*e0 < 0)) continue;
                  for (int k = 0; k < 200; ++k) {
                     for (int j = 0; j < 2; ++j) z[j] = round_to(f.prec, f.kind == Z ? (x[j] + y[j])/2 : middle(x[j], y[j], denorm_of(f.prec)*4));
                     if ((z[0] == x[0] && z[1] == x[1]) || (z[0] == y[0] && z[1] == y[1])) break;
                     const double e = diff_at(f, n, z, s.first); if (!(e == e)) break;
                     if (e == 0) {
                        const uint64_t pz = path(f, n, z), px = path(f, n, x), py = path(f, n, y);
                        if (pz && px && py && pz != px && pz != py && !dup[std::make_pair(z[0], z[1])]++) {
                           o << "P " << f.name << "|" << n << " " << hex(x[0]) << " " << hex(x[1]) << " " << hex(z[0]) << " " << hex(z[1]) << "\n";
                           a.count("points found where a difference vanishes"); ++found;
                        }
                        break;
                     }
                     ld* w = (e < 0) == (d < 0) ? x : y; w[0] = z[0]; w[1] = z[1];
                  }
               }
               continue;
            }
            a.count("comparisons with one outcome only");
            int found = 0;
            for (auto& q : s.second.at) {
               const ld in[2] = { q.second.re, f.kind == Z ? q.second.im : 0 }; ld x[2], y[2], z[2];
               if (!minimise(f, q.first, s.first, in, x, y)) continue;
               const double d = diff_at(f, q.first, x, s.first);
               for (int k = 0; k < 120; ++k) {                       // the boundary
                  for (int j = 0; j < 2; ++j) z[j] = round_to(f.prec, (x[j] + y[j])/2);
                  if ((z[0] == x[0] && z[1] == x[1]) || (z[0] == y[0] && z[1] == y[1])) break;
                  const double e = diff_at(f, q.first, z, s.first); if (!(e == e)) break;
                  ld* w = e != 0 && (e < 0) == (d < 0) ? x : y; w[0] = z[0]; w[1] = z[1];
               }
               if (dup[std::make_pair(x[0], x[1])]++ || dup[std::make_pair(y[0], y[1])]++) continue;
               o << "P " << f.name << "|" << q.first << " " << hex(x[0]) << " " << hex(x[1]) << " " << hex(y[0]) << " " << hex(y[1]) << "\n";
               a.count("points found by minimising a difference"); if (++found == 3) break;
            }
         }
         compare = false;
      }
      text[c] = o.str();
   });
   std::ofstream out(getenv("PV_SWITCH_OUT"));
   for (size_t c = 0; c < text.size(); ++c) out << text[c];
}
const Check CHECKS[] = { {"DISC", disc}, {0, 0} };
