// Reference model of the functions the library provides, templated on the
// scalar: quad (__float128, the adjudicator) and long double (the fast screen).
// Written from the mathematical definitions; shares no code, table or type with /repo.
#pragma once
#include <quadmath.h>
#include <cmath>
#include <cstdint>
#include <map>
#include <vector>

namespace ref {
typedef __float128 q;
template <class T> struct C { T re, im; };
typedef C<q> cq;
typedef C<long double> cl;

extern const q PIQ;

inline q m_fabs(q x) { return fabsq(x); }
inline q m_log(q x) { return logq(x); }
inline q m_log1p(q x) { return log1pq(x); }
inline q m_exp(q x) { return expq(x); }
inline q m_pow(q x, q y) { return powq(x, y); }
inline q m_atan2(q y, q x) { return atan2q(y, x); }
inline q m_sin(q x) { return sinq(x); }
inline void m_sincos(q x, q* s, q* c) { sincosq(x, s, c); }
inline q m_rint(q x) { return rintq(x); }
inline q m_fma(q a, q b, q c) { return fmaq(a, b, c); }
inline long double m_fabs(long double x) { return fabsl(x); }
inline long double m_log(long double x) { return logl(x); }
inline long double m_log1p(long double x) { return log1pl(x); }
inline long double m_exp(long double x) { return expl(x); }
inline long double m_pow(long double x, long double y) { return powl(x, y); }
inline long double m_atan2(long double y, long double x) { return atan2l(y, x); }
inline long double m_sin(long double x) { return sinl(x); }
inline void m_sincos(long double x, long double* s, long double* c) { *s = sinl(x); *c = cosl(x); }
inline long double m_rint(long double x) { return rintl(x); }
inline long double m_fma(long double a, long double b, long double c) { return fmal(a, b, c); }

template <class T> T zeta(int64_t n);          // Riemann zeta at an integer (+inf at 1)
template <class T> T eta(int64_t n);           // Dirichlet eta at an integer
template <class T> T fact_inv(int64_t n);      // 1/n!
template <class T> T harmonic(int64_t n);
template <class T> C<T> Li(int64_t n, C<T> z); // polylogarithm, any integer order, continuous from below on the cut
template <class T> T Cl(int64_t n, T x);       // standard Clausen
template <class T> T Sl(int64_t n, T x);       // Glaisher-Clausen
template <class T> T mod2pi(T x);              // x reduced to [-pi, pi]
template <class T> C<T> clog(C<T> z);          // principal log, Im z = 0 treated as +0
template <class T> C<T> clog1p(C<T> z);
}
