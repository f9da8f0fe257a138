#include "ref.hpp"
#include <cstddef>

namespace ref {

const q PIQ = 3.14159265358979323846264338327950288419716939937510582Q;

template <class T> struct K;
template <> struct K<q> {
   static q pi() { return PIQ; }
   static q pilo() { return 8.67181013012378102479704402604335225e-35Q; }  // pi - pi()
   static q tiny() { return 1e-40Q; }
   static q huge() { return 1e4930Q; }
   static q inf() { return HUGE_VALQ; }
   static q nan() { return nanq(""); }
};
template <> struct K<long double> {
   static long double pi() { return 3.14159265358979323846264338327950288L; }
   static long double pilo() { return (long double)(PIQ - (q)pi()); }
   static long double tiny() { return 1e-23L; }
   static long double huge() { return 1e4930L; }
   static long double inf() { return HUGE_VALL; }
   static long double nan() { return __builtin_nanl(""); }
};

static const q ZPOS[] = {
#include "ref_tables.inc"
};
static const int NZ = sizeof(ZPOS)/sizeof(ZPOS[0]);

#define TT template <class T> static inline
TT C<T> mk(T a, T b) { C<T> r; r.re = a; r.im = b; return r; }
template <class T> static inline C<T> operator+(C<T> a, C<T> b) { return mk<T>(a.re + b.re, a.im + b.im); }
template <class T> static inline C<T> operator-(C<T> a, C<T> b) { return mk<T>(a.re - b.re, a.im - b.im); }
template <class T> static inline C<T> operator-(C<T> a) { return mk<T>(-a.re, -a.im); }
template <class T> static inline C<T> operator*(C<T> a, C<T> b) { return mk<T>(a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re); }
TT C<T> sc(T a, C<T> b) { return mk<T>(a*b.re, a*b.im); }
TT T n1(C<T> a) { return m_fabs(a.re) + m_fabs(a.im); }
TT C<T> inv(C<T> z)
{
   // Smith's division
   if (m_fabs(z.re) >= m_fabs(z.im)) {
      const T t = z.im/z.re, d = z.re + z.im*t;
      return mk<T>(1/d, -t/d);
   }
   const T t = z.re/z.im, d = z.re*t + z.im;
   return mk<T>(t/d, -1/d);
}
static inline bool even(int64_t n) { return (n & 1) == 0; }

template <class T> T fact_inv(int64_t n)
{
   static const std::vector<T> t = [] {
      std::vector<T> v(1800, 0); q f = 1;
      v[0] = 1;
      for (int i = 1; i < 1755; ++i) { f *= i; v[i] = f < 1e4930Q ? (T)(1/f) : (T)0; }
      return v;
   }();
   return n < 0 ? K<T>::nan() : n < (int64_t)t.size() ? t[n] : 0;
}

static q zeta_q(int64_t n)
{
   if (n >= 2) {
      if (n - 2 < NZ) return ZPOS[n - 2];
      q s = 1;
      if (n < 400) s += powq(2, -(q)n) + powq(3, -(q)n);
      return s;
   }
   if (n == 0) return -0.5Q;
   if (n == 1) return HUGE_VALQ;
   if (even(n)) return 0;
   // zeta(1-2k) = 2 (-1)^k (2k-1)!/(2 pi)^(2k) zeta(2k), k2 = 2k
   const uint64_t k2 = 1 - (uint64_t)n;
   q r = 2*(k2 > 400 ? 1 : zeta_q((int64_t)k2));
   for (uint64_t i = 1; i < k2; ++i) { r *= (q)i/(2*PIQ); if (isinfq(r)) break; }
   r /= 2*PIQ;
   return even((int64_t)(k2/2)) ? r : -r;
}

template <class T> T zeta(int64_t n)
{
   static const std::vector<T> t = [] {
      std::vector<T> v(1400);
      for (int i = 0; i < 1400; ++i) v[i] = (T)zeta_q(i - 700);
      return v;
   }();
   if (n >= -700 && n < 700) return t[n + 700];
   return (T)zeta_q(n);
}

static q eta_q(int64_t n)
{
   if (n == 1) return M_LN2q;
   if (n > 400) return 1;
   return (1 - powq(2, 1 - (q)n))*zeta_q(n);
}

template <class T> T eta(int64_t n)
{
   static const std::vector<T> t = [] {
      std::vector<T> v(1000);
      for (int i = 0; i < 1000; ++i) v[i] = (T)eta_q(i - 500);
      return v;
   }();
   if (n >= -500 && n < 500) return t[n + 500];
   return (T)eta_q(n);
}

static q harmonic_q(int64_t n)
{
   if (n <= 0) return nanq("");
   if (n <= 200) {
      q s = 0;
      for (int64_t k = n; k >= 1; --k) s += (q)1/k;
      return s;
   }
   const q g = 0.577215664901532860606512090082402431042159335939923598805767Q;
   const q x = n, x2 = x*x;
   // ln n + gamma + 1/(2n) - sum B_2k/(2k n^2k)
   const q c[] = { 1.Q/12, -1.Q/120, 1.Q/252, -1.Q/240, 1.Q/132, -691.Q/32760, 1.Q/12, -3617.Q/8160 };
   q p = 1/x2, s = 0;
   for (int i = 0; i < 8; ++i) { s += c[i]*p; p /= x2; }
   return logq(x) + g + 0.5Q/x - s;
}

template <class T> T harmonic(int64_t n)
{
   static const std::vector<T> t = [] {
      std::vector<T> v(1000);
      for (int i = 0; i < 1000; ++i) v[i] = (T)harmonic_q(i);
      return v;
   }();
   return n >= 0 && n < 1000 ? t[n] : (T)harmonic_q(n);
}

TT T lnabs(C<T> z)
{
   T a = m_fabs(z.re), b = m_fabs(z.im);
   if (a < b) { const T t = a; a = b; b = t; }
   if (a > 0.5L && a < 2 && b < 2) {
      const T d = (a - 1)*(a + 1) + b*b;
      if (d > -0.5L && d < 1) return m_log1p(d)/2;
   }
   if (b == 0) return m_log(a);
   const T t = b/a;
   return m_log(a) + m_log1p(t*t)/2;
}

template <class T> C<T> clog(C<T> z)
{
   if (z.im == 0) return mk<T>(lnabs(mk<T>(z.re, 0)), z.re < 0 ? K<T>::pi() : (T)0);
   return mk<T>(lnabs(z), m_atan2(z.im, z.re));
}

template <class T> C<T> clog1p(C<T> z)
{
   // |1+z|^2 - 1 = 2 re + re^2 + im^2
   const T d = 2*z.re + z.re*z.re + z.im*z.im;
   const T im = z.im == 0 ? (1 + z.re < 0 ? K<T>::pi() : z.im) : m_atan2(z.im, 1 + z.re);
   if (d > -0.5L && d < 1) return mk<T>(m_log1p(d)/2, im);
   return mk<T>(lnabs(mk<T>(1 + z.re, z.im)), im);
}

// k^-n for k = 0, 1, ... (grown on demand, one table per order and thread)
template <class T> static const std::vector<T>& inv_pows(int64_t n, size_t need)
{
   static thread_local std::map<int64_t, std::vector<T> > m;
   static thread_local int64_t last = 0;
   static thread_local std::vector<T>* cur = nullptr;
   if (!cur || last != n) {
      if (m.size() > 400) m.clear();
      cur = &m[n]; last = n;
   }
   std::vector<T>& v = *cur;
   if (v.size() <= need) {
      size_t k = v.size();
      v.resize(need + 1);
      for (; k <= need; ++k) v[k] = k < 2 ? (T)k : n < 700 ? (T)powq((q)k, -(q)n) : m_pow((T)k, -(T)n);
   }
   return v;
}

TT C<T> power_series(int64_t n, C<T> z)
{
   C<T> p = z, s = mk<T>(0, 0);
   const std::vector<T>* w = &inv_pows<T>(n, 16);
   for (size_t k = 1; k < 2000; ++k) {
      if (k >= w->size()) w = &inv_pows<T>(n, 2*k);
      const C<T> t = sc<T>((*w)[k], p);
      s = s + t;
      if (k > 2 && m_fabs(t.re) <= K<T>::tiny()*m_fabs(s.re) && m_fabs(t.im) <= K<T>::tiny()*m_fabs(s.im)) break;
      if (n1(p) == 0) break;
      p = p*z;
   }
   return s;
}

// sum over k of zeta(n-k) mu^k/k! with the logarithmic term, n >= 1, |mu| < 2 pi
TT C<T> unity_series(int64_t n, C<T> mu)
{
   C<T> p = mk<T>(1, 0), s = mk<T>(0, 0);
   const T eps = K<T>::tiny();
   for (int64_t k = 0; k < 1500; ++k) {
      if (k > 0) p = sc<T>(1/(T)k, p*mu);
      C<T> t;
      if (k == n - 1) {
         const C<T> l = clog(-mu);
         const T h = n == 1 ? (T)0 : harmonic<T>(n - 1);
         t = n1(mu) == 0 ? mk<T>(0, 0) : p*mk<T>(h - l.re, -l.im);
      } else {
         t = sc<T>(zeta<T>(n - k), p);
      }
      s = s + t;
      if (k > n && !even(n - k) && n1(t) <= eps*n1(s)) break;
      if (k > n && n1(p) == 0) break;
      if (k < n && k > 40 && n1(p) <= eps*1e-5L*n1(s)) break;
   }
   return s;
}

TT C<T> neg_order(int64_t m, C<T> z)   // Li_{-m}(z), m >= 1
{
   const T a2 = z.re*z.re + z.im*z.im;
   if (a2 > 4) {                         // Li_{-m}(z) = (-1)^(m+1) Li_{-m}(1/z)
      const C<T> r = neg_order(m, inv(z));
      return even(m) ? -r : r;
   }
   if (m <= 24) {
      // z A_m(z)/(1-z)^(m+1), Eulerian polynomial A_m(z) = sum_k A(m,k) z^k, A(m,0)=1
      T A[24] = { 1 };
      for (int64_t j = 2; j <= m; ++j)
         for (int64_t k = j - 1; k >= 0; --k)
            A[k] = (k + 1)*(k < j - 1 ? A[k] : 0) + (k > 0 ? (j - k)*A[k - 1] : 0);
      C<T> s = mk<T>(0, 0);
      for (int64_t k = m - 1; k >= 0; --k) { s = s*z; s.re += A[k]; }
      const C<T> d = inv(mk<T>(1 - z.re, -z.im));
      s = s*z;
      for (int64_t j = 0; j <= m; ++j) s = s*d;
      return s;
   }
   // small |z|: the terms of the sum below nearly cancel -> power series
   if (a2 < 1e-8L || (m < 60 && a2 < 0.01L)) return power_series(-m, z);
   // m! sum_k (2 pi i k - mu)^-(m+1)
   const C<T> mu = clog(z);
   C<T> s = mk<T>(0, 0);
   T lf = 0;
   for (int64_t i = 2; i <= m; ++i) lf += m_log((T)i);
   T big = 0;
   for (int64_t k = 0; k < 3000; ++k) {
      T contrib = 0;
      for (int sg = 0; sg < (k ? 2 : 1); ++sg) {
         const C<T> w = mk<T>(-mu.re, 2*K<T>::pi()*(sg ? -k : k) - mu.im);
         const C<T> l = clog(w);
         const T lr = lf - (m + 1)*l.re, ph = -(m + 1)*l.im;
         T si, co; m_sincos(ph, &si, &co);
         const T e = m_exp(lr);
         s = s + mk<T>(e*co, e*si);
         contrib += e;
      }
      if (contrib > big) big = contrib;
      if (k > 1 && contrib < K<T>::tiny()*big) break;
   }
   return s;
}

template <class T> C<T> Li(int64_t n, C<T> z)
{
   if (z.re == 0 && z.im == 0) return z;
   const bool real = z.im == 0;
   C<T> r;
   if (n < 0) {
      r = neg_order(-n, z);
      if (real) r.im = 0;
      return r;
   }
   if (n == 0) return z*inv(mk<T>(1 - z.re, -z.im));
   if (n == 1) {
      if (real && z.re > 1) return mk<T>(-m_log(z.re - 1), -K<T>::pi());
      return -clog1p(-z);
   }
   const T a2 = z.re*z.re + z.im*z.im;
   if (a2 <= 0.25L) {
      r = power_series(n, z);
   } else if (a2 < 4) {
      r = unity_series(n, clog(z));
   } else {
      // Li_n(z) = (-1)^(n-1) Li_n(1/z) - L^n/n! - 2 sum_{r=1}^{n/2} eta(2r) L^(n-2r)/(n-2r)!,  L = ln(-z)
      C<T> L = clog(-z);
      if (real) L = mk<T>(L.re, z.re > 0 ? K<T>::pi() : (T)0);
      C<T> p = mk<T>(1, 0), s = mk<T>(0, 0);
      for (int64_t j = 0; j <= n; ++j) {
         if (j > 0) p = sc<T>(1/(T)j, p*L);
         if (j == n) s = s - p;
         else if (even(n - j)) s = s - sc<T>(2*eta<T>(n - j), p);
         if (j > 40 && j > 4*n1(L) && n1(p) < K<T>::tiny()*1e-5L*n1(s)) break;
      }
      const C<T> t = power_series(n, inv(z));
      r = even(n) ? s - t : s + t;
   }
   if (real && z.re <= 1) r.im = 0;
   return r;
}

template <class T> T mod2pi(T x)
{
   const T k = m_rint(x/(2*K<T>::pi()));
   return m_fma(-k, 2*K<T>::pi(), x) - 2*k*K<T>::pilo();
}

TT C<T> Li_unit(int64_t n, T x)   // Li_n(e^{ix})
{
   const T y = mod2pi<T>(x);
   if (n == 1) {
      const T s = m_fabs(m_sin(y/2));
      return mk<T>(y == 0 ? K<T>::inf() : -m_log(s) - (T)M_LN2q, y == 0 ? (T)0 : (y > 0 ? K<T>::pi() - y : -K<T>::pi() - y)/2);
   }
   return unity_series<T>(n, mk<T>(0, y));
}

template <class T> T Cl(int64_t n, T x) { const C<T> r = Li_unit<T>(n, x); return even(n) ? r.im : r.re; }
template <class T> T Sl(int64_t n, T x) { const C<T> r = Li_unit<T>(n, x); return even(n) ? r.re : r.im; }

#define INST(T) \
template T zeta<T>(int64_t); template T eta<T>(int64_t); template T fact_inv<T>(int64_t); template T harmonic<T>(int64_t); \
template C<T> Li<T>(int64_t, C<T>); template T Cl<T>(int64_t, T); template T Sl<T>(int64_t, T); \
template T mod2pi<T>(T); template C<T> clog<T>(C<T>); template C<T> clog1p<T>(C<T>);
INST(q)
INST(long double)

} // namespace ref
