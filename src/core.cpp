#include "core.hpp"
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cerrno>
#include <thread>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <fstream>
#include <sstream>

Cfg cfg;
Result R_;

long cases(double quick, double tf) { return (long)std::max(1.0, quick*cfg.scale*(cfg.thorough ? tf : 1)); }

// ------------------------------------------------------------------ numbers
ld max_of(Prec p) { return p == F ? (ld)FLT_MAX : p == D ? (ld)DBL_MAX : LDBL_MAX; }
ld denorm_of(Prec p) { return p == F ? 0x1p-149L : p == D ? 0x1p-1074L : 0x1p-16445L; }
static ld min_normal(Prec p) { return p == F ? (ld)FLT_MIN : p == D ? (ld)DBL_MIN : LDBL_MIN; }
ld round_to(Prec p, ld x)
{
   ld r = p == F ? (ld)(float)x : p == D ? (ld)(double)x : x;
   if (std::isinf(r) && std::isfinite(x)) r = x > 0 ? max_of(p) : -max_of(p);
   return r;
}
ld ulp_step(Prec p, ld x, int k)
{
   for (; k > 0; --k) x = p == F ? (ld)nextafterf((float)x, HUGE_VALF) : p == D ? (ld)nextafter((double)x, HUGE_VAL) : nextafterl(x, HUGE_VALL);
   for (; k < 0; ++k) x = p == F ? (ld)nextafterf((float)x, -HUGE_VALF) : p == D ? (ld)nextafter((double)x, -HUGE_VAL) : nextafterl(x, -HUGE_VALL);
   return x;
}

// ------------------------------------------------------------------ generators
const char* const STRATA[] = { "box", "unit circle", "near 1", "large", "small", "near real axis", "real axis", "near imaginary axis",
   "switch-over curve", "source literal", "rational grid", "log plane", "circle and angle", "bit pattern", "near special point", "cut", "extreme", "new source literal", "found decision" };
const int NSTRATA = 19;

static ld logu(Rng& r, ld lo, ld hi) { return powl(10, lo + (hi - lo)*r.uld()); }
static ld emax10(Prec p) { return p == F ? 37 : p == D ? 307 : 4930; }
static int few(Rng& r) { return (int)r.below(9) - 4; }
static ld anybits(Rng& r, Prec p)   // finite, uniform over the exponents
{
   for (;;) {
      ld x;
      if (p == F) { uint32_t b = r.next(); float f; memcpy(&f, &b, 4); x = f; }
      else if (p == D) { uint64_t b = r.next(); double f; memcpy(&f, &b, 8); x = f; }
      else x = ldexpl(1 + r.uld(), (int)r.below(32700) - 16400)*r.sgn();
      if (std::isfinite(x)) return x;
   }
}
static const ld PIl = 3.14159265358979323846264338327950288L;
// a quantity that a new literal of the sources may be compared with
static ld fresh_value(Rng& r, Prec p)
{
   ld v = cfg.fresh[r.below(cfg.fresh.size())];
   switch (r.below(12)) { case 0: v = -v; break; case 1: if (v != 0) v = 1/v; break; case 2: v = v*v; break; case 3: case 4: v = sqrtl(fabsl(v)); break; case 5: v = fabsl(v) < 400 ? expl(v) : v; break; case 6: v = v > 0 ? logl(v) : v; break;
      case 7: v = 1 - v; break; default: break; }
   switch (r.below(4)) {
   case 0: return v*(ld)r.U(0, 2);
   case 1: return v*(1 + r.sgn()*logu(r, -3, 0));
   case 2: return ulp_step(p, round_to(p, v), few(r));
   default: return v*(1 + r.sgn()*logu(r, p == L ? -19 : p == D ? -16 : -7.5, -1));
   }
}
static ld landmark(Rng& r)
{
   static const ld sp[] = { 0, 1, -1, 0.5L, -0.5L, 2, -2, 0.8L, PIl, PIl/2, PIl/3, 2*PIl/3, 2*PIl, 3*PIl/2, 0.75L, 1.4L };
   if (r.below(3) == 0 && !cfg.dict.empty()) return cfg.dict[r.below(cfg.dict.size())]*r.sgn();
   return sp[r.below(16)];
}
static bool fresh(Rng& r) { return !cfg.fresh.empty() && r.below(3) == 0; }
static In fresh_real(Rng& r, Prec p)
{
   In z; z.stratum = 17;
   const ld v = fresh_value(r, p);
   switch (r.below(8)) {
   case 0: case 1: case 2: z.re = v; break;
   case 3: z.re = landmark(r) + r.sgn()*v; break;
   case 4: z.re = landmark(r)*(1 + r.sgn()*v); break;
   case 5: z.re = fabsl(v) <= 1 ? (r.next() & 1 ? acosl(v) : asinl(v)) : v; break;
   case 6: z.re = 2*PIl*((int)r.below(9) - 4) + r.sgn()*v; break;
   default: z.re = v != 0 ? 1/v : v; break;
   }
   if (!std::isfinite(z.re)) z.re = 1;
   z.re = round_to(p, z.re*r.sgn());
   return z;
}
static In fresh_complex(Rng& r, Prec p)
{
   In z; z.stratum = 17; const ld v = fresh_value(r, p), a = fabsl(v), th = r.below(3) ? (2*r.uld() - 1)*PIl : ((int)r.below(9) - 4)*PIl/4;
   switch (r.below(9)) {
   case 0: z.re = v; z.im = r.below(4) ? (ld)r.U(-2, 2) : r.sgn()*logu(r, -16, 0)*(ld)(r.below(3) != 0); break;
   case 1: z.im = v; z.re = r.below(4) ? (ld)r.U(-2, 2) : r.sgn()*logu(r, -16, 0)*(ld)(r.below(3) != 0); break;
   case 2: case 3: z.re = a*cosl(th); z.im = a*sinl(th); break;
   case 4: z.re = 1 + a*cosl(th); z.im = a*sinl(th); break;
   case 5: { const ld b = a < 700 ? a : 1, e = expl(b*cosl(th)); z.re = e*cosl(b*sinl(th)); z.im = e*sinl(b*sinl(th)); break; }          // |ln z| = a
   case 6: { const ld b = r.next() & 1 ? (ld)r.U(0, 3) : 1; z.re = b*cosl(v); z.im = b*sinl(v); break; }                                      // arg z
   case 7: z.re = landmark(r) + r.sgn()*v; z.im = r.next() & 1 ? landmark(r) + r.sgn()*fresh_value(r, p) : r.next() & 1 ? r.sgn()*fresh_value(r, p) : (ld)r.U(-2, 2); break;
   default: z.re = r.next() & 1 ? v : landmark(r); z.im = fresh_value(r, p); break;
   }
   if (!std::isfinite(z.re)) z.re = 1;
   if (!std::isfinite(z.im)) z.im = 1;
   if (r.below(16) == 0) z.im = r.next() & 1 ? 0.0L : -0.0L;
   z.re = round_to(p, z.re*r.sgn()); z.im = round_to(p, z.im*r.sgn());
   return z;
}
static int64_t fresh_order(Rng& r)
{
   const int64_t v = cfg.ifresh[r.below(cfg.ifresh.size())];
   switch (r.below(5)) { case 0: return v; case 1: return v + few(r); case 2: return v < (1ll << 40) ? v*(1 + (int64_t)r.below(40)) + (r.next() & 1 ? few(r) : 0) : v; case 3: return v > 0 ? (int64_t)r.below(v) : 0; default: return v + (int64_t)r.below(50); }
}
static ld dictval(Rng& r)
{
   if (cfg.dict.empty()) return 1;
   ld v = cfg.dict[r.below(cfg.dict.size())];
   switch (r.below(8)) { case 0: return -v; case 1: return v != 0 ? 1/v : v; case 2: return v*v; case 3: return v > 0 ? sqrtl(v) : v; case 4: return v > 0 ? -sqrtl(v) : v; default: return v; }
}

In gen_complex(Rng& r, Prec p)
{
   if (fresh(r)) return fresh_complex(r, p);
   In z; const int k = r.below(16); z.stratum = k;
   const ld th = (2*r.uld() - 1)*PIl;
   ld rad = 1;
   switch (k) {
   case 0: z.re = r.U(-3, 3) ; z.im = r.U(-3, 3); break;
   case 1: rad = 1 + r.sgn()*logu(r, p == L ? -19 : p == D ? -16 : -7.5, -0.5); z.re = rad*cosl(th); z.im = rad*sinl(th); break;
   case 2: rad = logu(r, p == L ? -19 : p == D ? -16 : -7.5, 0); z.re = 1 + rad*cosl(th); z.im = rad*sinl(th); break;
   case 3: rad = r.next() & 1 ? logu(r, 0, 6) : logu(r, 0, emax10(p)); z.re = rad*cosl(th); z.im = rad*sinl(th); break;
   case 4: rad = r.next() & 1 ? logu(r, -8, 0) : logu(r, -emax10(p), 0); z.re = rad*cosl(th); z.im = rad*sinl(th); break;
   case 5: z.re = r.U(-4, 4); z.im = r.sgn()*logu(r, p == F ? -10 : -22, 0); break;
   case 6: z.re = r.next() & 1 ? r.U(-3, 3) : r.sgn()*logu(r, -5, 5); z.im = r.next() & 1 ? 0.0L : -0.0L; break;
   case 7: z.im = r.next() & 1 ? r.U(-4, 4) : r.sgn()*logu(r, -4, 4); z.re = r.next() & 3 ? r.sgn()*logu(r, p == F ? -10 : -22, 0) : r.next() & 1 ? 0.0L : -0.0L; break;
   case 8: {   // curves where implementations change method
      const ld d = r.sgn()*logu(r, p == L ? -19 : p == D ? -16 : -7.5, -2);
      static const ld radii[] = { 0.75L, 1.4L, 1.0L, 0.5L, 2.0L, 0.25L, 1/1.4L, 4/3.0L };
      switch (r.below(6)) {
      case 0: rad = radii[r.below(8)]*(1 + d); z.re = rad*cosl(th); z.im = rad*sinl(th); break;
      case 1: { const ld s = (r.next() & 1 ? 1.0L : r.next() & 1 ? 0.512L*2*PIl : 0.4L*2*PIl)*(1 + d); const ld e = expl(s*cosl(th)); z.re = e*cosl(s*sinl(th)); z.im = e*sinl(s*sinl(th)); break; }
      case 2: z.re = 0.5L*(1 + d); z.im = r.sgn()*logu(r, -6, 1); break;
      case 3: z.re = 1 + (1 + d)*cosl(th); z.im = (1 + d)*sinl(th); break;                // |z - 1| = 1
      case 4: rad = sqrtl(epsl(p))*(1 + r.U(-.5, .5)); z.re = rad*cosl(th); z.im = rad*sinl(th); break;
      default: z.re = radii[r.below(8)]*r.sgn(); z.im = r.sgn()*logu(r, -18, 0); break;
      }
      break; }
   case 9: z.re = ulp_step(p, round_to(p, dictval(r)), few(r)); z.im = r.next() & 1 ? (ld)r.U(-2, 2) : ulp_step(p, round_to(p, dictval(r)), few(r)); if (r.next() & 1) std::swap(z.re, z.im); break;
   case 10: z.re = ((int)r.below(257) - 128)/(r.next() & 1 ? 16.0L : 5.0L); z.im = ((int)r.below(257) - 128)/(r.next() & 1 ? 16.0L : 5.0L); if (r.next() & 1) { z.re /= 10; z.im /= 10; } break;
   case 11: { const ld e = expl(r.U(-8, 8)); z.re = e*cosl(th); z.im = e*sinl(th); break; }
   case 12: { rad = r.next() & 1 ? 1 + r.sgn()*logu(r, -16, -1) : expl(r.U(-2, 2)); const ld t = ((int)r.below(25) - 12)*PIl/12 + (r.next() & 1 ? 0 : r.sgn()*logu(r, -17, -1)); z.re = rad*cosl(t); z.im = rad*sinl(t); break; }
   case 13: z.re = anybits(r, p); z.im = anybits(r, p); break;
   case 14: { static const ld sp[] = { 0, 1, -1, 0.5L, 2, -2, 1e-8L }; z.re = sp[r.below(7)] + r.sgn()*logu(r, -17, -2)*(ld)(r.below(3) != 0); z.im = (r.below(4) == 0 ? sp[r.below(7)] : 0) + r.sgn()*logu(r, -17, -2)*(ld)(r.below(3) != 0); break; }
   default: z.re = 1 + logu(r, p == F ? -6 : -15, r.next() & 1 ? 2 : emax10(p) - 1); z.im = r.below(3) == 0 ? (r.next() & 1 ? 0.0L : -0.0L) : r.sgn()*z.re*logu(r, -20, -1); break;
   }
   z.re = round_to(p, z.re); z.im = round_to(p, z.im);
   return z;
}

In gen_real(Rng& r, Prec p)
{
   if (fresh(r)) return fresh_real(r, p);
   In z; const ld lo = p == L ? -19 : p == D ? -16 : -7.5;
   switch (r.below(10)) {
   case 0: case 1: z.stratum = 0; z.re = r.U(-3, 3); break;
   case 2: z.stratum = 2; z.re = 1 + r.sgn()*logu(r, lo, 0); break;
   case 3: z.stratum = 3; z.re = r.sgn()*(r.next() & 1 ? logu(r, 0, 4) : logu(r, 0, emax10(p) + 0.9L)); break;
   case 4: z.stratum = 4; z.re = r.sgn()*(r.next() & 1 ? logu(r, -8, 0) : logu(r, -emax10(p) - 14, 0)); break;
   case 5: z.stratum = 8; { static const ld sp[] = { 0.5L, 0.8L, 2, -1, -2, -0.5L, 1.25L, 1, 0.25L, 12.6L, 83.3L }; z.re = sp[r.below(11)]*(1 + r.sgn()*logu(r, lo, -1)); } break;
   case 6: z.stratum = 9; z.re = ulp_step(p, round_to(p, dictval(r)), few(r)); break;
   case 7: z.stratum = 10; z.re = ((int)r.below(513) - 256)/(r.next() & 1 ? 64.0L : 10.0L); z.re = ulp_step(p, round_to(p, z.re), few(r)); break;
   case 8: z.stratum = 13; z.re = anybits(r, p); break;
   default: z.stratum = 5; z.re = r.U(0, 1); break;
   }
   z.re = round_to(p, z.re);
   return z;
}

In gen_angle(Rng& r, Prec p)
{
   if (fresh(r)) return fresh_real(r, p);
   In z; const ld lo = p == L ? -19 : p == D ? -16 : -7.5;
   switch (r.below(10)) {
   case 0: case 1: z.stratum = 0; z.re = r.U(0, (double)PIl)*r.sgn(); break;
   case 2: z.stratum = 14; z.re = ulp_step(p, round_to(p, ((int)r.below(33) - 16)*PIl/2), few(r)); break;
   case 3: z.stratum = 8; z.re = ((int)r.below(25) - 12)*PIl/2 + r.sgn()*logu(r, lo, -0.3L); break;
   case 4: z.stratum = 4; z.re = r.sgn()*(r.next() & 1 ? logu(r, -8, 0) : logu(r, -emax10(p) - 14, 0)); break;
   case 5: z.stratum = 3; z.re = r.sgn()*(r.below(4) ? logu(r, 0, 4) : logu(r, 0, p == L ? 18 : p == D ? 15 : 6)); break;
   case 6: z.stratum = 9; z.re = ulp_step(p, round_to(p, dictval(r)), few(r)); break;
   case 7: z.stratum = 10; z.re = r.next() & 1 ? ((int)r.below(513) - 256)/32.0L : ((int)r.below(49) - 24)*PIl/12; break;
   case 8: z.stratum = 13; z.re = anybits(r, p); break;
   default: z.stratum = 5; z.re = r.U(-7, 7); break;
   }
   z.re = round_to(p, z.re);
   return z;
}
// decisions found by p_disc: neighbours that take different paths
static std::map<const Fn*, std::vector<Switch>> switch_map;
static std::vector<int64_t> switch_orders;
static thread_local int64_t last_order = 2;
const std::vector<Switch>& switches(const Fn& f) { static const std::vector<Switch> none; auto i = switch_map.find(&f); return i == switch_map.end() ? none : i->second; }
static void load_switches()
{
   if (cfg.switch_file.empty()) return;
   std::ifstream i(cfg.switch_file.c_str()); std::string l;
   while (std::getline(i, l)) {
      const size_t b = l.find('|'); if (b == std::string::npos) continue;
      const Fn* f = find_fn(l.substr(2, b - 2)); if (!f) continue;
      std::istringstream t(l.substr(b + 1)); std::string w[5]; for (auto& x : w) t >> x;
      Switch s; s.n = atoll(w[0].c_str());
      if (l[0] == 'N') { switch_orders.push_back(s.n); continue; }
      for (int k = 0; k < 2; ++k) { s.a[k] = strtold(w[1 + k].c_str(), 0); s.b[k] = strtold(w[3 + k].c_str(), 0); }
      switch_map[f].push_back(s);
   }
   for (auto& p : switch_map) std::stable_sort(p.second.begin(), p.second.end(), [](const Switch& x, const Switch& y) { return x.n < y.n; });
}
static In switch_point(const Fn& f, const std::vector<Switch>& v, Rng& r)
{
   size_t lo = 0, hi = v.size();
   if (f.order == GENERIC && r.below(4)) {           // found for the nearest order
      auto less = [](const Switch& s, int64_t n) { return s.n < n; };
      size_t k = std::lower_bound(v.begin(), v.end(), last_order, less) - v.begin();
      if (k == v.size() || (k > 0 && (r.next() & 1) && v[k].n != last_order)) k--;
      lo = std::lower_bound(v.begin(), v.end(), v[k].n, less) - v.begin(); hi = k; while (hi < v.size() && v[hi].n == v[k].n) hi++;
   }
   const Switch& s = v[lo + r.below(hi - lo)]; const ld* x = r.next() & 1 ? s.a : s.b;
   In z; z.stratum = 18; z.re = x[0]; z.im = x[1];
   switch (r.below(5)) {
   case 0: break;
   case 1: z.re = ulp_step(f.prec, z.re, few(r)); if (f.kind == Z) z.im = ulp_step(f.prec, z.im, few(r)); break;
   case 2: z.re *= 1 + r.sgn()*logu(r, -17, -1); if (r.next() & 1) z.im *= 1 + r.sgn()*logu(r, -17, -1); break;
   case 3: { const ld d = logu(r, -17, -1), m = fabsl(z.re) + fabsl(z.im); z.re += m*d*(ld)r.U(-1, 1); if (f.kind == Z) z.im += m*d*(ld)r.U(-1, 1); break; }
   default: if (r.next() & 1) z.re = -z.re; if (r.next() & 1) z.im = -z.im; z.re *= 1 + r.sgn()*logu(r, -17, -3); break;
   }
   z.re = round_to(f.prec, z.re); z.im = f.kind == Z ? round_to(f.prec, z.im) : 0;
   if (!std::isfinite(z.re) || !std::isfinite(z.im)) { z.re = s.a[0]; z.im = s.a[1]; }
   return z;
}
In gen_for(const Fn& f, Rng& r)
{
   if (r.below(5) == 0) { const auto& v = switches(f); if (!v.empty()) return switch_point(f, v, r); }
   return f.kind == Z ? gen_complex(r, f.prec) : f.kind == R ? gen_real(r, f.prec) : gen_angle(r, f.prec);
}

static ld special(Rng& r, Prec p)
{
   const ld mx = max_of(p), dn = denorm_of(p), mn = min_normal(p);
   const ld v[] = { 0, 1, 2, 0.5L, mx, mx/2, dn, 3*dn, mn, mn - dn, epsl(p), 1/epsl(p), sqrtl(mx), sqrtl(mn), HUGE_VALL, __builtin_nanl(""), 1 + epsl(p), 1 - epsl(p)/2,
                    0x1p52L, 0x1p53L, 0x1p62L, 0x1p63L, 0x1p64L, 0x1p31L, 6.283185307179586L, 3.141592653589793L, PIl, 2*PIl, 0.75L, 1.4L };
   return v[r.below(sizeof(v)/sizeof(*v))]*r.sgn();
}
In gen_any(const Fn& f, Rng& r)
{
   if (r.below(4) == 0) return gen_for(f, r);
   In z; z.stratum = 16;
   auto one = [&]() { switch (r.below(4)) { case 0: return anybits(r, f.prec); case 1: return ulp_step(f.prec, special(r, f.prec), few(r)); default: return special(r, f.prec); } };
   z.re = one(); if (f.kind == Z) z.im = one();
   if (r.below(6) == 0) z.im = r.next() & 1 ? 0.0L : -0.0L;
   if (f.kind != Z) z.im = 0;
   return z;
}
In gen_tiny(const Fn& f, Rng& r)
{
   if (fresh(r)) for (int i = 0; i < 20; ++i) { const In w = gen_for(f, r); if ((w.re != 0 || w.im != 0) && fabsl(w.re) < 0.02L && fabsl(w.im) < 0.02L) return w; }
   In z; z.stratum = 4; const Prec p = f.prec; const ld e = emax10(p) + (p == F ? 8 : p == D ? 16 : 20);
   const ld a = logu(r, -e, -2), b = r.below(3) ? logu(r, -e, -2) : a*logu(r, -3, 3);
   switch (r.below(6)) {
   case 0: z.re = a; z.im = f.kind == Z ? (r.next() & 1 ? 0.0L : -0.0L) : 0.0L; break;
   case 1: z.re = 0; z.im = a; break;
   case 2: z.re = a; z.im = a; break;
   case 3: z.re = denorm_of(p)*(1 + r.below(20)); z.im = r.next() & 1 ? 0 : denorm_of(p)*r.below(20); break;
   case 4: z.re = sqrtl(epsl(p))*r.U(.2, 5); z.im = z.re*r.U(-3, 3); break;
   default: z.re = a; z.im = b; break;
   }
   z.re = round_to(p, z.re)*r.sgn(); z.im = round_to(p, z.im)*r.sgn();
   if (f.kind != Z) { if (z.re == 0) z.re = round_to(p, a); z.im = 0; }
   return z;
}
static int64_t order_small(Rng& r, int64_t lo, int64_t hi)
{
   if (!cfg.ifresh.empty() && r.below(4) == 0) { int64_t n = fresh_order(r); if (lo < 0 && (hi <= 0 || r.next() & 1)) n = -n; if (n >= lo && n <= hi) return n; }
   return lo + (int64_t)r.below(hi - lo + 1); }
static int64_t order_pos(Rng& r, int64_t lo)
{
   int64_t n;
   if (!cfg.ifresh.empty() && r.below(3) == 0) { n = fresh_order(r); return n < lo ? lo : n; }
   switch (r.below(11)) {
   case 10: {           // equal to a small order after a conversion to a shorter type
      static const int b[] = { 8, 15, 16, 31, 32, 33, 48, 53, 62 }; const int k = b[r.below(9)];
      n = (int64_t)((uint64_t)(1 + r.below(k > 50 ? 1 : 4)) << k) + (int64_t)r.below(45) - 2; break; }
   case 0: case 1: case 2: case 3: n = lo + (int64_t)r.below(30); break;
   case 4: case 5: n = lo + (int64_t)r.below(80); break;
   case 6: n = lo + (int64_t)r.below(500); break;
   case 7: n = (int64_t)ldexp(1 + r.u(), (int)r.below(62)); break;
   case 8: n = cfg.idict.empty() ? 9 : std::llabs(cfg.idict[r.below(cfg.idict.size())]) + few(r); break;
   default: { static const int64_t sp[] = { 33, 34, 54, 55, 170, 171, 177, 178, 109, 110, 130, 217, 260, 1023, 1074, 4096, INT32_MAX, 1ll << 32, 1ll << 53, INT64_MAX, INT64_MAX - 1, INT64_MAX - 3 };
      n = sp[r.below(22)]; if (n < INT64_MAX - 10) n += few(r); }
   }
   return n < lo ? lo : n;
}
static int64_t order_any(Rng& r)
{
   if (r.below(3) == 0) return gen_order_pos(r, 0);
   if (r.below(3) == 0) return gen_order_small(r, -12, 12);
   switch (r.below(5)) {
   case 0: return -(int64_t)r.below(300);
   case 1: return (int64_t)r.next();
   case 2: { static const int64_t sp[] = { INT64_MIN, INT64_MIN + 1, INT64_MIN + 2, INT64_MIN + 3, -1ll << 53, INT32_MIN, -171, -170, -169, -260, -261, -218, -219, -1000 }; return sp[r.below(14)]; }
   case 3: { const int64_t n = gen_order_pos(r, 1); return -n; }
   default: return -(int64_t)ldexp(1 + r.u(), (int)r.below(62));
   }
}

static bool found_order(Rng& r, int64_t lo, int64_t hi)
{
   if (switch_orders.empty() || r.below(8)) return false;
   const int64_t n = switch_orders[r.below(switch_orders.size())];
   return n >= lo && n <= hi && (last_order = n, true);
}
int64_t gen_order_small(Rng& r, int64_t lo, int64_t hi) { return found_order(r, lo, hi) ? last_order : last_order = order_small(r, lo, hi); }
int64_t gen_order_pos(Rng& r, int64_t lo) { return found_order(r, lo, INT64_MAX) ? last_order : last_order = order_pos(r, lo); }
int64_t gen_order_any(Rng& r) { return found_order(r, INT64_MIN, INT64_MAX) ? last_order : last_order = order_any(r); }

// ------------------------------------------------------------------ results
void Acc::hash(const Fn* f, int64_t n, const ld* in)
{
   uint64_t h = (uint64_t)(uintptr_t)f*0x9e3779b97f4a7c15ull ^ (uint64_t)n*0xbf58476d1ce4e5b9ull;
   for (int i = 0; i < 2; ++i) { uint64_t m; uint16_t e; memcpy(&m, &in[i], 8); memcpy(&e, (const char*)&in[i] + 8, 2); h = (h ^ m)*0x94d049bb133111ebull; h ^= h >> 29; h = (h ^ e)*0xbf58476d1ce4e5b9ull; h ^= h >> 31; }
   h *= 0x9e3779b97f4a7c15ull; h ^= h >> 32;
   if ((h & R_.mask) == 0) hashes.push_back(h);
}
void Acc::max(const std::string& k, double v, const Fn* f, int64_t n, const ld* in)
{
   auto it = maxima.find(k);
   if (it != maxima.end() && !(v > it->second)) return;
   maxima[k] = v;
   if (f) maxat[k] = call_text(*f, n, in);
}
static void compact()
{
   auto& s = R_.sketch;
   std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
   while (s.size() > (2u << 20)) {
      R_.mask = 2*R_.mask.load() + 1;
      s.erase(std::remove_if(s.begin(), s.end(), [](uint64_t h) { return (h & R_.mask) != 0; }), s.end());
   }
}
void merge(Acc& a)
{
   std::lock_guard<std::mutex> l(R_.mu);
   R_.evals += a.evals;
   for (auto& p : a.counters) R_.counters[p.first] += p.second;
   for (auto& p : a.maxima) { auto it = R_.maxima.find(p.first); if (it == R_.maxima.end() || p.second > it->second) { R_.maxima[p.first] = p.second; auto m = a.maxat.find(p.first); if (m != a.maxat.end()) R_.maxat[p.first] = m->second; } }
   R_.sketch.insert(R_.sketch.end(), a.hashes.begin(), a.hashes.end());
   if (R_.sketch.size() > (4u << 20)) compact();
   a = Acc();
}
void add_sample(const std::string& s) { std::lock_guard<std::mutex> l(R_.mu); if (R_.samples.size() < 24) R_.samples.push_back(s); }

std::string fmt(ld x) { char b[64]; snprintf(b, sizeof b, "%.21Lg", x); return b; }
static std::string hex(ld x) { char b[64]; snprintf(b, sizeof b, "%La", x); return b; }
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else if ((unsigned char)c >= 32) r += c; } return r; }
std::string call_text(const Fn& f, int64_t n, const ld* in)
{
   std::string s = f.name + " at ";
   if (f.order == GENERIC) s += "n=" + std::to_string(n) + ", ";
   s += f.kind == Z ? "(" + fmt(in[0]) + "," + fmt(in[1]) + ")" : fmt(in[0]);
   return s;
}
std::string call_json(const Fn& f, int64_t n, const ld* in)
{
   return "{\"fn\":\"" + f.name + "\",\"n\":\"" + std::to_string(f.order == GENERIC ? n : f.order) + "\",\"re\":\"" + hex(in[0]) + "\",\"im\":\"" + hex(in[1]) + "\",\"text\":\"" + esc(call_text(f, n, in)) + "\"}";
}
std::string out_text(const Fn& f, const ld* o) { return f.kind == Z ? "(" + fmt(o[0]) + "," + fmt(o[1]) + ")" : fmt(o[0]); }

void violation_raw(const std::string& key, const std::string& msg, const std::string& json)
{
   std::lock_guard<std::mutex> l(R_.mu);
   if (++R_.vcount[key] > 1 || R_.viol.size() > 200) return;   // one witness per key
   R_.viol.push_back({ key, msg, json });
}
void violation(const std::string& kind, const Fn& f, int64_t n, const ld* in, const std::string& msg)
{
   std::string key = kind + " " + f.name;
   if (f.order == GENERIC) key += n < -170 ? " n<-170" : n < 0 ? " n<0" : n > 1000 ? " n>1000" : " n=" + std::to_string(n);
   violation_raw(key, call_text(f, n, in) + ": " + msg, call_json(f, n, in));
}

// ------------------------------------------------------------------ calls, crash and hang guard
struct Slot { const Fn* f; int64_t n; ld in[2]; std::atomic<uint64_t> seq; };
static Slot slots[256];
static std::atomic<int> nslots{0};
static thread_local Slot* my = nullptr;
static const char* phase = "";
void guard_phase(const char* w) { phase = w; }

void call(const Fn& f, int64_t n, const ld* in, ld* out)
{
   if (!my) my = &slots[nslots++ & 255];
   my->f = &f; my->n = n; my->in[0] = in[0]; my->in[1] = in[1];
   my->seq.fetch_add(1, std::memory_order_release);
   out[0] = out[1] = 0;
   f.call(n, in, out);
   my->seq.fetch_add(1, std::memory_order_release);
}

void announce(const Fn& f, int64_t n, const ld* in, bool begin)
{
   if (!my) my = &slots[nslots++ & 255];
   if (begin) { my->f = &f; my->n = n; my->in[0] = in[0]; my->in[1] = in[1]; }
   my->seq.fetch_add(1, std::memory_order_release);
}

static void abnormal(const char* what, Slot* s, int code)
{
   // last words: a line for the runner, which repeats the call in a fresh process
   if (s && s->f && (s->seq & 1)) { const std::string j = call_json(*s->f, s->n, s->in); fprintf(stdout, "\nABNORMAL {\"what\":\"%s\",\"phase\":\"%s\",\"call\":%s}\n", what, phase, j.c_str()); }
   else fprintf(stdout, "\nABNORMAL {\"what\":\"%s\",\"phase\":\"%s\",\"call\":null}\n", what, phase);
   fflush(stdout);
   _exit(code);
}
// stack overflow: handlers run on a stack of their own
static void alt_stack()
{
   stack_t st; st.ss_flags = 0; st.ss_size = 1 << 16; st.ss_sp = malloc(st.ss_size); sigaltstack(&st, nullptr);
}
static void on_signal(int s)
{
   static std::atomic<int> once{0};
   if (once++) for (;;) pause();
   signal(s, SIG_DFL);
   abnormal(s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : "SIGBUS", my, 43);
}
static double hang_seconds = 40;

void start_guard()
{
   alt_stack();
   for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS }) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
   if (getenv("PV_HANG")) hang_seconds = atof(getenv("PV_HANG"));
   std::thread([] {
      std::vector<uint64_t> last(256, 0); std::vector<double> since(256, 0);
      for (double t = 0;; t += 1) {
         sleep(1);
         for (int i = 0; i < 256; ++i) {
            const uint64_t q = slots[i].seq.load(std::memory_order_acquire);
            if (q != last[i] || !(q & 1)) { last[i] = q; since[i] = t; }
            else if (t - since[i] > hang_seconds) abnormal("hang", &slots[i], 42);
         }
      }
   }).detach();
}

void parallel(long chunks, const std::function<void(long, Acc&)>& body)
{
   std::atomic<long> next{0};
   std::vector<std::thread> th;
   const int T = (int)std::min<long>(cfg.threads, chunks);
   for (int t = 0; t < T; ++t) th.emplace_back([&] { alt_stack(); for (long c; (c = next++) < chunks; ) { Acc a; body(c, a); merge(a); } });
   for (auto& t : th) t.join();
}

std::vector<const Fn*> select(const std::function<bool(const Fn&)>& p)
{
   std::vector<const Fn*> v; for (const Fn& f : api()) if (p(f)) v.push_back(&f); return v;
}

// ------------------------------------------------------------------ output
static void write_out()
{
   compact();
   std::ofstream o(cfg.out.c_str());
   o << "{\"evaluations\":" << R_.evals.load() << ",\"distinct_estimate\":" << (R_.sketch.size()*(R_.mask + 1)) << ",\"counters\":{";
   bool c = false;
   for (auto& p : R_.counters) { o << (c ? "," : "") << "\"" << esc(p.first) << "\":" << p.second; c = true; }
   o << "},\"maxima\":{"; c = false;
   for (auto& p : R_.maxima) { char b[40]; snprintf(b, sizeof b, std::isfinite(p.second) ? "%.4g" : "1e999", p.second); o << (c ? "," : "") << "\"" << esc(p.first) << "\":[" << b << ",\"" << esc(R_.maxat[p.first]) << "\"]"; c = true; }
   o << "},\"samples\":["; c = false;
   for (auto& s : R_.samples) { o << (c ? "," : "") << "\"" << esc(s) << "\""; c = true; }
   o << "],\"violations\":["; c = false;
   for (auto& v : R_.viol) { o << (c ? "," : "") << "{\"key\":\"" << esc(v.key) << "\",\"count\":" << R_.vcount[v.key] << ",\"text\":\"" << esc(v.text) << "\",\"call\":" << (v.json.empty() ? "null" : v.json) << "}"; c = true; }
   o << "]}\n";
}

static void load_dict()
{
   if (cfg.dict_file.empty()) return;
   std::ifstream i(cfg.dict_file.c_str()); std::string t;
   while (i >> t) {
      if (t[0] == 'F') { const ld v = strtold(t.c_str() + 1, nullptr); if (std::isfinite(v)) cfg.fresh.push_back(v); }
      else if (t[0] == 'I') cfg.ifresh.push_back(atoll(t.c_str() + 1));
      else if (t[0] == 'i') cfg.idict.push_back(atoll(t.c_str() + 1));
      else { const ld v = strtold(t.c_str() + 1, nullptr); if (std::isfinite(v)) cfg.dict.push_back(v); }
   }
}


int main(int argc, char** argv)
{
   if (argc >= 6 && !strcmp(argv[1], "call")) {          // call <fn> <n> <re> <im>: one call, for confirming crashes and hangs
      const Fn* f = find_fn(argv[2]); if (!f) return 5;
      ld in[2] = { strtold(argv[4], 0), strtold(argv[5], 0) }, out[2] = {0,0};
      start_guard();
      call(*f, atoll(argv[3]), in, out);
      printf("%s = %s", call_text(*f, atoll(argv[3]), in).c_str(), out_text(*f, out).c_str());
      if (argc > 6) return 0;
      const Tol r = tolerance(*f, atoll(argv[3]), in);
      printf("   reference (%.21Lg,%.21Lg), allowed error %.3g from rounding and %.3g from the conditioning\n", (ld)r.re, (ld)r.im, (double)(r.A*epsl(f->prec)*r.mod), (double)r.sens);
      Acc a; const int c = check_acc(*f, atoll(argv[3]), in, out, a, "accuracy");
      printf("%s\n", c == BAD ? "outside the tolerance" : c == OK ? "within the tolerance" : "not judged");
      return 0;
   }
   for (int i = 1; i + 1 < argc; i += 2) {
      const std::string k = argv[i], v = argv[i + 1];
      if (k == "--prop") cfg.prop = v; else if (k == "--seed") cfg.seed = strtoull(v.c_str(), 0, 10);
      else if (k == "--tier") cfg.thorough = v == "thorough"; else if (k == "--scale") cfg.scale = atof(v.c_str());
      else if (k == "--threads") cfg.threads = atoi(v.c_str()); else if (k == "--out") cfg.out = v; else if (k == "--dict") cfg.dict_file = v; else if (k == "--switches") cfg.switch_file = v;
   }
   load_dict();
   load_switches();
   start_guard();
   for (const Check* c = CHECKS; c->id; ++c)
      if (cfg.prop == c->id) { c->run(); if (!cfg.out.empty()) write_out(); printf("DONE %ld evaluations, %zu violation keys\n", R_.evals.load(), R_.viol.size()); return R_.viol.empty() ? 0 : 1; }
   fprintf(stderr, "unknown check %s\n", cfg.prop.c_str());
   return 5;
}
