// C30: the long double functions as compiled for platforms whose long double is IEEE quadruple or plain double.
// PV_WIDE: shared objects of w_host.cpp with the libraries, "label=path;..."
#include "core.hpp"
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <dlfcn.h>
#include <quadmath.h>

namespace mp = boost::multiprecision;
typedef mp::number<mp::cpp_bin_float<320, mp::digit_base_2, void, int32_t>, mp::et_off> M;
typedef __float128 q;

static M from_q(q x)
{
   int e; x = frexpq(x, &e); const q h = truncq(x*0x1p57Q); const q l = (x*0x1p57Q - h)*0x1p57Q;
   return mp::ldexp(M((long long)h), e - 57) + mp::ldexp(M((long long)l), e - 114);
}

// ------------------------------------------------------------------ reference: 320 bits
struct Zc { M re, im; };
static Zc operator+(const Zc& a, const Zc& b) { return { a.re + b.re, a.im + b.im }; }
static Zc operator-(const Zc& a, const Zc& b) { return { a.re - b.re, a.im - b.im }; }
static Zc operator*(const Zc& a, const Zc& b) { return { a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re }; }
static Zc operator*(const M& a, const Zc& b) { return { a*b.re, a*b.im }; }
static M norm(const Zc& a) { return a.re*a.re + a.im*a.im; }
static M mod(const Zc& a) { return sqrt(norm(a)); }
static const int TERMS = 330;
struct Const {
   M pi, z[TERMS], zneg[TERMS];       // zeta(k), zeta(-k)
   std::vector<M> inv;
   Const()
   {
      pi = 4*atan(M(1));
      // Borwein: eta(s) = -1/d_n sum_k (-1)^k (d_k - d_n)/(k + 1)^s
      const int n = 150; std::vector<M> d(n + 1); M t = 1, s = 0;      // t = (n+i-1)! 4^i/((n-i)! (2i)!) n
      for (int i = 0; i <= n; ++i) { if (i == 0) t = 1; else { t *= M(4)*(n + i - 1)*(n - i + 1); t /= M(2*i)*(2*i - 1); } s += t; d[i] = s; }
      for (int k = 2; k < TERMS; ++k) {
         M e = 0; for (int i = 0; i < n; ++i) { const M u = (d[i] - d[n])/mp::pow(M(i + 1), k); if (i % 2) e -= u; else e += u; }
         z[k] = -e/d[n]/(1 - mp::ldexp(M(1), 1 - k));
      }
      for (int k = 0; k < TERMS; ++k) zneg[k] = 0;
      zneg[0] = -M(1)/2;
      M f = 1;     // (2k-1)!/(2 pi)^(2k): zeta(1-2k) = 2 (-1)^k (2k-1)!/(2 pi)^(2k) zeta(2k)
      for (int k = 1; 2*k < TERMS; ++k) { f = k == 1 ? 1/(4*pi*pi) : f*(2*k - 1)*(2*k - 2)/(4*pi*pi); zneg[2*k - 1] = (k % 2 ? -2 : 2)*f*z[2*k]; }
      for (int k = 0; k <= TERMS + 700; ++k) inv.push_back(k ? M(1)/k : M(0));
   }
   M zeta(int k) const { return k > 0 ? z[k] : zneg[-k]; }
};
static const Const& K() { static const Const k; return k; }
static M inv_pow(int k, int n) { M r = K().inv[k]; M t = r; for (int i = 1; i < n; ++i) t *= r; return t; }

static M log1p_(const M& w)
{
   if (fabs(w) > M(0.03)) return log(1 + w);
   const M t = w/(2 + w), t2 = t*t; M p = t, s = 0;
   for (int k = 1; k < 200; k += 2) { s += p*K().inv[k]; p *= t2; if (p == 0 || fabs(p) < mp::ldexp(fabs(s), -330)) break; }
   return 2*s;
}
// log z, principal value, for real z < 0 with imaginary part +pi
static Zc log_(const Zc& z)
{
   const M w = (z.re - 1)*(z.re + 1) + z.im*z.im, m = norm(z);
   const M a = z.im == 0 ? (z.re < 0 ? K().pi : M(0)) : atan2(z.im, z.re);
   return { m > M(0.25) && m < 4 ? log1p_(w)/2 : log(m)/2, a };
}
static Zc powser(int n, const Zc& z)
{
   Zc p = z, s = z; const M e = mp::ldexp(mod(z), -330);
   if (z.re == 0 && z.im == 0) return z;
   for (int k = 2; k < 700; ++k) { p = p*z; const Zc t = inv_pow(k, n)*p; s = s + t; if (fabs(t.re) + fabs(t.im) < e) break; }
   return s;
}
// Li_n(e^u), |u| < 4; below: the limit from below the cut for real u > 0
static Zc logser(int n, const Zc& u)
{
   if (u.re == 0 && u.im == 0) return { K().zeta(n), 0 };
   Zc s{ 0, 0 }, p{ 1, 0 }, c{ 0, 0 };
   for (int k = 0; k < TERMS - 8; ++k) {
      if (k) p = K().inv[k]*(p*u);                       // u^k/k!
      if (k == n - 1) { M h = 0; for (int j = 1; j < n; ++j) h += K().inv[j]; Zc l = log_({ -u.re, -u.im }); c = p*(Zc{ h - l.re, -l.im }); s = s + c; continue; }
      const M ze = K().zeta(n - k); if (ze == 0) continue;
      const Zc t = ze*p; s = s + t;
      if (k > n + 2 && fabs(t.re) + fabs(t.im) < mp::ldexp(fabs(s.re) + fabs(s.im), -330)) break;
   }
   return s;
}
static Zc ref_li(int n, const Zc& z)
{
   const M m = norm(z);
   if (m <= M(0.25)) return powser(n, z);
   if (m < 4) return logser(n, log_(z));
   const M d = 1/m; Zc r = powser(n, { z.re*d, -z.im*d }); if (n % 2 == 0) r = { -r.re, -r.im };
   Zc l = log_({ -z.re, -z.im });
   const M p2 = K().pi*K().pi, p4 = p2*p2; const Zc l2 = l*l;
   switch (n) {
      case 2: return r - (Zc{ p2/6, 0 } + M(0.5)*l2);
      case 3: return r - l*(Zc{ p2/6, 0 } + (M(1)/6)*l2);
      case 4: return r - (Zc{ 7*p4/360, 0 } + l2*(Zc{ p2/12, 0 } + (M(1)/24)*l2));
      case 5: return r - l*(Zc{ 7*p4/360, 0 } + l2*(Zc{ p2/36, 0 } + (M(1)/120)*l2));
      default: return r - (Zc{ 31*p2*p4/15120, 0 } + l2*(Zc{ 7*p4/720, 0 } + l2*(Zc{ p2/144, 0 } + (M(1)/720)*l2)));
   }
}
static M ref_cl(int n, const M& x, M& red)
{
   const M t = 2*K().pi; red = x - t*round(x/t);
   const Zc v = logser(n, { 0, red }); return n % 2 ? v.re : v.im;
}

// ------------------------------------------------------------------ one shared object
struct Wide {
   std::string label; int bits; std::vector<std::string> names; std::vector<int> kind, n;
   void (*call)(int, const q*, q*); q eps, lo, hi;
};
static std::string fq(q x) { char b[128]; quadmath_snprintf(b, sizeof b, "%.36Qg", x); return b; }

static void bad(const Wide& w, int i, const q* in, const q* out, const std::string& what, const std::string& msg)
{
   const std::string c = "[" + w.label + "] " + w.names[i] + "(" + fq(in[0]) + (w.kind[i] == 1 ? ", " + fq(in[1]) : "") + ")";
   violation_raw("[" + w.label + "] " + what + " " + w.names[i], c + " = " + fq(out[0]) + (w.kind[i] == 1 ? " + i " + fq(out[1]) : "") + ": " + msg, "{\"wide\":\"" + w.label + "\",\"fn\":\"" + w.names[i] + "\",\"re\":\"" + fq(in[0]) + "\",\"im\":\"" + fq(in[1]) + "\"}");
}

static q uq(Rng& r) { return ((q)(r.next() >> 8)*0x1p-56Q + (q)r.next())*0x1p-64Q; }
static q round_(const Wide& w, q x) { return w.bits == 53 ? (q)(double)x : x; }
static q p10(double e) { return exp2q((q)e*3.3219280948873623478703194294893902Q); }
static const char* const STR[] = { "disk", "modulus 1e-40..1e40", "whole exponent range", "circle |z| = 1", "circles |log z| = 1, |z|^2 = 3/4", "next to -1, 0, 1, 2, 1/2", "next to an axis", "axis", "multiples of pi/6", "literals", "where the 80-bit functions change their path", "simple numbers" };

static q literal(Rng& r)
{
   const bool f = !cfg.fresh.empty() && r.below(2);
   const q x = f ? cfg.fresh[r.below(cfg.fresh.size())] : cfg.dict.empty() ? 0.5L : cfg.dict[r.below(cfg.dict.size())];
   return x*(1 + (r.below(2) ? 0 : (2*uq(r) - 1)*p10(r.U(-34, -2))));
}

static int gen(const Wide& w, int i, Rng& r, q* in)
{
   const q pi = M_PIq; int s; const int kind = w.kind[i];
   if (r.below(8) == 0) if (const Fn* f = find_fn(w.names[i])) {
      const std::vector<Switch>& v = switches(*f);
      if (!v.empty()) {
         const Switch& t = v[r.below(v.size())]; const q d = r.below(2) ? uq(r) : 1 + (2*uq(r) - 1)*p10(r.U(-20, 8));
         for (int k = 0; k < 2; ++k) in[k] = round_(w, t.a[k] + d*((q)t.b[k] - (q)t.a[k]));
         if (kind != 1) in[1] = 0;
         if (finiteq(in[0]) && finiteq(in[1])) return 10;
      }
   }
   if (kind == 1) {
      s = r.below(9); if (s == 8) s = 9; q m = 1, a = pi*(2*uq(r) - 1);
      switch (s) {
         case 0: m = 2.2Q*sqrtq(uq(r)); break;
         case 1: m = p10(r.U(-40, 40)); break;
         case 2: m = w.bits == 53 ? p10(r.U(-290, 290)) : p10(r.U(-4900, 4900)); break;
         case 3: m = 1 + (2*uq(r) - 1)*p10(r.U(-36, -1)); break;
         case 4: m = 1; break;
         default: break;
      }
      in[0] = m*cosq(a); in[1] = m*sinq(a);
      if (s == 4) { const q f = 1 + (2*uq(r) - 1)*p10(r.U(-20, -1)); switch (r.below(4)) {
         case 0: { const q e = expq(f*cosq(a)), t = f*sinq(a); in[0] = e*cosq(t); in[1] = e*sinq(t); break; }
         case 1: m = sqrtq(0.75Q)*f; in[0] *= m; in[1] *= m; break;
         case 2: in[0] = 0.5Q*f; in[1] = 3*(2*uq(r) - 1); break;
         default: m = (r.below(2) ? 0.8Q : 0.6Q)*f; in[0] *= m; in[1] *= m; } }
      if (s == 5) { static const double c[] = { -1, 0, 1, 1, 2, 0.5 }; const double x = c[r.below(6)]; const q d = p10(r.U(-36, -1)); in[0] = x + d*in[0]; in[1] = d*in[1]; if (r.below(4) == 0) in[1] = r.sgn()*p10(r.U(-40, -1)); }
      if (s == 6) { m = r.below(2) ? 3*uq(r) : p10(r.U(-8, 8)); const q d = m*p10(r.U(-40, -1)); if (r.below(2)) { in[0] = r.sgn()*m; in[1] = r.sgn()*d; } else { in[0] = r.sgn()*d; in[1] = r.sgn()*m; } }
      if (s == 7) { m = r.below(2) ? 3*uq(r) : p10(r.U(-10, 10)); const q o = r.sgn() < 0 ? -0.0Q : 0.0Q; if (r.below(4)) { in[0] = r.sgn()*m; in[1] = o; } else { in[0] = o; in[1] = r.sgn()*m; } }
      if (s == 9) switch (r.below(3)) { case 0: in[0] = r.sgn()*literal(r); in[1] = r.sgn()*literal(r); break; case 1: m = literal(r); in[0] *= m; in[1] *= m; break;
         default: { const int k = r.below(2); in[k] = r.sgn()*literal(r); in[1 - k] *= r.below(2) ? 3*uq(r) : p10(r.U(-10, 3)); } }
   } else {
      in[1] = 0;
      switch (s = (int)r.below(6)) {
         case 0: in[0] = kind == 0 ? 8*uq(r) - 4 : pi*(6*uq(r) - 3); break;
         case 1: in[0] = r.sgn()*p10(kind == 0 ? r.U(-40, 40) : r.U(-40, 6)); break;
         case 2: in[0] = r.sgn()*(kind == 2 ? p10(r.U(-3, 1)) : w.bits == 53 ? p10(r.U(-290, 290)) : p10(r.U(-4900, 4900))); break;
         case 3: s = 5; { static const double c[] = { -1, 0, 1, 1, 2, 0.5, -0.5, 0.25, -2 }; in[0] = c[r.below(9)] + r.sgn()*p10(r.U(-36, -1)); } break;
         case 4: s = 8; in[0] = pi*(q)r.below(13)/6*(1 + (2*uq(r) - 1)*p10(r.U(-36, -1)))*r.sgn(); break;
         default: s = 9; in[0] = r.sgn()*literal(r);
      }
   }
   for (int k = 0; k < 2; ++k) in[k] = round_(w, in[k]);
   return s;
}

// largest admitted errors, in units of eps; Cl_3 to Cl_6 in quadruple precision: 2^-76
static double units(const Wide& w, int kind, int n)
{
   if (kind == 2) return w.bits == 113 && n > 2 ? 0x1p35 : n == 2 ? 16 : 500;
   return kind == 0 ? 200 : 32;
}

static void judge(const Wide& w, int i, const q* in, const q* out, int s, Acc& a)
{
   const int kind = w.kind[i], n = w.n[i];
   a.evals++;
   if (kind == 2 && fabsq(in[0]) > 1e6Q) {       // the multiple of 2 pi next to it is not known that exactly
      a.count("very large angles: bounds only");
      if (!(fabsq(out[0]) < 1.3Q)) bad(w, i, in, out, "bound", "not between -1.3 and 1.3");
      return;
   }
   const bool fin = finiteq(out[0]) && finiteq(out[1]);
   const M x = from_q(in[0]), y = from_q(in[1]), eps = mp::ldexp(M(1), 1 - w.bits), A = units(w, kind == 1 && n == 2 && y == 0 ? 0 : kind, n);
   Zc want; M tol, tre = -1;
   if (kind == 2) {
      M red; want = { ref_cl(n, x, red), 0 };
      // slope of Cl_n is +-Cl_(n-1), that of Cl_2 -log(2 sin(x/2))
      const M sl = n == 2 ? fabs(log(2*fabs(sin(red/2)) + mp::ldexp(M(1), -400))) : fabs(n == 3 ? M(1.1) : M(1.3));
      tol = A*eps*(fabs(want.re) + (n > 2 ? fabs(red) < M(0.3) ? M(fabs(red)) : M(0.3) : M(0))) + 4*eps*fabs(x)*sl;
   } else {
      want = ref_li(n, { x, y });
      if (kind == 0) want.im = 0;
      tol = A*eps*mod(want); if (kind == 0 && x > 1) tol += A*eps*4;
      if (norm({ x, y }) < mp::ldexp(M(1), -60)) tre = A*eps;      // each part to full precision where Li_n(z) ~ z
   }
   const M least = from_q(w.lo);
   tol += least;
   if (!fin) {
      if (mod(want) < from_q(w.hi)) bad(w, i, in, out, "accuracy", "is not finite");
      return;
   }
   const Zc e{ from_q(out[0]) - want.re, from_q(out[1]) - want.im };
   double ratio = (mod(e)/tol).convert_to<double>();
   if (tre > 0) for (int k = 0; k < 2; ++k) ratio = std::max(ratio, (fabs(k ? e.im : e.re)/(tre*(fabs(k ? y : x) + norm({ x, y })) + least)).convert_to<double>());
   if (y == 0 && kind == 1) {       // no imaginary part below 1; the limit from below beyond
      if (x <= 1 && out[1] != 0) ratio = std::max(ratio, 1e30);
      if (x > 1 && out[1] > 0) ratio = std::max(ratio, 1e30);
   }
   const ld lin[2] = { (ld)in[0], (ld)in[1] };
   const Fn* f = find_fn(w.names[i]); if (f) { a.hash(f, n + 100*w.bits, lin); }
   a.count(std::string("inputs: ") + STR[s]); a.count("[" + w.label + "] results compared");
   const std::string key = "[" + w.label + "] " + w.names[i];
   if (ratio > a.maxima[key]) { a.maxima[key] = ratio; a.maxat[key] = "(" + fq(in[0]) + ", " + fq(in[1]) + ")"; }
   if (!(ratio <= 1)) { char b[200]; snprintf(b, sizeof b, "error is %.3g times the tolerance of %.3g (eps of this long double: 2^-%d)", ratio, tol.convert_to<double>(), w.bits - 1); bad(w, i, in, out, "accuracy", b); }
}

static void special(const Wide& w, int i, Acc& a)
{
   const int kind = w.kind[i], n = w.n[i]; const q N = nanq(""), I = HUGE_VALQ; q out[2]; Rng r(cfg.seed*77 + i, 30);
   auto at = [&](q x, q y, const char* what) { const q in[2] = { x, kind == 1 ? y : 0 }; w.call(i, in, out); a.evals++; a.count(std::string("special arguments: ") + what); };
   // simple numbers, among them all that the functions may treat specially, and what they are next to
   auto exact = [&](q x, q y) { const q in[2] = { round_(w, x), kind == 1 ? round_(w, y) : 0 }; if (kind && in[0] == 0 && in[1] == 0) return; w.call(i, in, out); judge(w, i, in, out, 11, a); };
   for (int k = -80; k <= 80; ++k) {
      exact(k/16.0Q, 0.0Q);
      if (kind == 1) { exact(k/16.0Q, -0.0Q); exact(0.0Q, k/16.0Q); exact(-0.0Q, k/16.0Q); exact(k/16.0Q, (int)(r.below(161) - 80)/16.0Q); }
      if (kind == 2 && k) { const q g = k*M_PIq/12; exact(g, 0); exact(nextafterq(g, 100), 0); exact(nextafterq(g, -100), 0); exact(k*M_PIq, 0); }
   }
   for (int k = -30; k <= 30; ++k) for (int t = -1; t <= 1; t += 2) { exact(t*scalbnq(1, k), 0.0Q); exact(t*p10(k), -0.0Q); }
   auto no = [&](q x, q y, const char* m) { const q in[2] = { x, kind == 1 ? y : 0 }; bad(w, i, in, out, "special value", std::string("expected ") + m); };
   at(N, N, "NaN"); if (!isnanq(out[0])) no(N, N, "NaN");
   for (int k = 0; k < 20; ++k) { q g[2]; gen(w, i, r, g); at(N, g[1], "NaN"); if (!isnanq(out[0])) no(N, g[1], "NaN"); if (kind == 1) { at(g[0], N, "NaN"); if (!isnanq(out[0]) && !isnanq(out[1])) no(g[0], N, "NaN"); } }
   if (kind == 2) {
      for (q s : { I, -I }) { at(s, 0, "infinite angle"); if (!isnanq(out[0])) no(s, 0, "NaN"); }
      for (q s : { 0.0Q, -0.0Q }) { at(s, 0, "zero"); if (n % 2 == 0 ? out[0] != 0 : !(out[0] > 1)) no(s, 0, n % 2 == 0 ? "0" : "zeta"); }
      return;
   }
   for (int k = 0; k < 4; ++k) { const q x = k & 1 ? -0.0Q : 0.0Q, y = k & 2 ? -0.0Q : 0.0Q; if (kind == 0 && k > 1) continue; at(x, y, "zero");
      if (out[0] != 0 || signbitq(out[0]) != signbitq(x) || (kind == 1 && (out[1] != 0 || signbitq(out[1]) != signbitq(y)))) no(x, y, "the argument itself"); }
   if (kind == 0) { at(-I, 0, "infinity"); if (!(isinfq(out[0]) && out[0] < 0)) no(-I, 0, "-inf"); }
   else for (int k = 0; k < 16; ++k) { const double v[] = { -HUGE_VAL, HUGE_VAL, 1, -2 }; at(v[k & 3], v[k >> 2], "infinity"); }
   if (kind == 1) for (int k = 0; k < 100; ++k) { const q x = round_(w, (k % 2 ? 1 + p10(r.U(-10, 3)) : 4*uq(r) - 3)); at(x, 0.0Q, "both zeros"); const q re = out[0], im = out[1]; at(x, -0.0Q, "both zeros"); if (re != out[0] || im != out[1]) no(x, -0.0Q, "the same for both signs of zero"); }
}

static void c30()
{
   std::vector<Wide> ws; std::string v = getenv("PV_WIDE") ? getenv("PV_WIDE") : "";
   while (!v.empty()) {
      const size_t s = std::min(v.find(';'), v.size()), e = v.find('='); Wide w; w.label = v.substr(0, e); const std::string path = v.substr(e + 1, s - e - 1); v = s < v.size() ? v.substr(s + 1) : "";
      void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
      w.bits = ((int (*)())dlsym(h, "w_bits"))(); w.call = (void (*)(int, const q*, q*))dlsym(h, "w_call");
      auto entry = (const char* (*)(int, int*, int*))dlsym(h, "w_entry"); int k, n;
      for (int i = 0; const char* c = entry(i, &k, &n); ++i) { w.names.push_back(c); w.kind.push_back(k); w.n.push_back(n); }
      w.lo = w.bits == 53 ? 0x1p-1070Q : scalbnq(1, -16490); w.hi = w.bits == 53 ? (q)DBL_MAX : FLT128_MAX;
      ws.push_back(w);
   }
   if (ws.empty()) { fprintf(stderr, "PV_WIDE is empty\n"); exit(3); }
   K();
   if (const char* one = getenv("PV_WIDE_ONE")) {      // replay: label, function, argument
      char l[100], f[100], re[100], im[100];
      if (sscanf(one, "%99[^;];%99[^;];%99[^;];%99s", l, f, re, im) != 4) exit(3);
      for (auto& w : ws) for (int i = 0; i < (int)w.names.size(); ++i) if (w.label == l && w.names[i] == f) {
         const q in[2] = { strtoflt128(re, nullptr), strtoflt128(im, nullptr) }; q out[2]; Acc a;
         w.call(i, in, out); printf("[%s] %s(%s, %s) = %s, %s\n", l, f, fq(in[0]).c_str(), fq(in[1]).c_str(), fq(out[0]).c_str(), fq(out[1]).c_str());
         judge(w, i, in, out, 0, a); special(w, i, a); merge(a);
      }
      return;
   }
   const long chunk = 50, per = cases(4000)/chunk + 1; long total = 0; for (auto& w : ws) total += per*(long)w.names.size();
   guard_phase("other long double");
   parallel(total, [&](long c, Acc& a) {
      long k = c/per; const Wide* w = &ws[0]; while (k >= (long)w->names.size()) k -= (long)(w++)->names.size();
      const int i = (int)k; Rng r(cfg.seed*15485863 + c, 30); const Fn* f = find_fn(w->names[i]);
      for (int j = 0; j < chunk; ++j) {
         q in[2], out[2]; const int s = gen(*w, i, r, in); const ld lin[2] = { (ld)in[0], (ld)in[1] };
         if (f) announce(*f, w->n[i], lin, true); w->call(i, in, out); if (f) announce(*f, w->n[i], lin, false);
         judge(*w, i, in, out, s, a);
         if (j == 7 && c % 301 == 0) add_sample("[" + w->label + "] " + w->names[i] + "(" + fq(in[0]) + ", " + fq(in[1]) + ") = " + fq(out[0]) + ", " + fq(out[1]));
      }
      if (c % per == 0) special(*w, i, a);
   });
}
const Check CHECKS[] = { {"C30", c30}, {0, 0} };
