// Shared machinery: random numbers, input generators, parallel driver, reporting.
#pragma once
#include "api.hpp"
#include "ref.hpp"
#include <atomic>
#include <cfloat>
#include <climits>
#include <functional>
#include <mutex>
#include <set>
#include <cstdio>
#include <cstring>

typedef long double ld;

struct Rng {
   uint64_t s[2];
   explicit Rng(uint64_t a, uint64_t b = 0) {
      auto mix = [](uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27))*0x94d049bb133111ebull; return z ^ (z >> 31); };
      s[0] = mix(a*0x2545f4914f6cdd1dull + b); s[1] = mix(s[0] ^ b); for (int i = 0; i < 8; ++i) next();
   }
   uint64_t next() { uint64_t a = s[0], b = s[1], r = a + b; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return r; }
   uint64_t below(uint64_t n) { return (uint64_t)(((unsigned __int128)next()*n) >> 64); }
   double u() { return (next() >> 11)*0x1p-53; }
   ld uld() { return next()*0x1p-64L; }
   double U(double a, double b) { return a + (b - a)*u(); }
   int sgn() { return next() >> 63 ? 1 : -1; }
};

// ---------------------------------------------------------------- scenario
struct Cfg {
   uint64_t seed = 1;
   bool thorough = false;
   double scale = 1;            // multiplies all case counts
   int threads = 8;
   std::string prop, out, dict_file, switch_file;
   std::vector<ld> dict;        // numeric literals of the sources
   std::vector<int64_t> idict;  // integer literals of the sources
   std::vector<ld> fresh;       // those the sources have gained since src/literals.txt was made
   std::vector<int64_t> ifresh;
};
extern Cfg cfg;
long cases(double quick, double thorough_factor = 20);   // number of cases for this tier

// ---------------------------------------------------------------- precision
ld round_to(Prec p, ld x);
ld ulp_step(Prec p, ld x, int k);          // k steps to a neighbouring number
ld max_of(Prec p);
ld denorm_of(Prec p);
inline ld epsl(Prec p) { return p == F ? 0x1p-23L : p == D ? 0x1p-52L : 0x1p-63L; }

// ---------------------------------------------------------------- inputs
struct In { ld re = 0, im = 0; int stratum = 0; };
In gen_complex(Rng&, Prec);                // finite, moderate and extreme
In gen_real(Rng&, Prec);
In gen_angle(Rng&, Prec);
In gen_for(const Fn& f, Rng&);
struct Switch { int64_t n; ld a[2], b[2]; };    // neighbouring arguments of order n that take different paths (p_disc.cpp)
const std::vector<Switch>& switches(const Fn& f);
In gen_any(const Fn& f, Rng&);             // any bit pattern, NaN and infinities included
In gen_tiny(const Fn& f, Rng&);
int64_t gen_order_pos(Rng&, int64_t lo);   // n >= lo, up to INT64_MAX
int64_t gen_order_small(Rng&, int64_t lo, int64_t hi);
int64_t gen_order_any(Rng&);
extern const char* const STRATA[];
extern const int NSTRATA;

// ---------------------------------------------------------------- results
struct Result {
   std::mutex mu;
   std::atomic<long> evals{0};
   std::map<std::string, long> counters;    // measured counts
   std::map<std::string, double> maxima;    // largest observed error, in units of the tolerance or of eps
   std::map<std::string, std::string> maxat;
   std::vector<uint64_t> sketch; std::atomic<uint64_t> mask{0};   // distinct non-trivial inputs (exact until 2M, then a hash sample)
   std::vector<std::string> samples;
   struct V { std::string key, text, json; };
   std::vector<V> viol;
   std::map<std::string, long> vcount;
};
extern Result R_;
// per-thread accumulator, merged at the end of a chunk
struct Acc {
   long evals = 0;
   std::map<std::string, long> counters;
   std::map<std::string, double> maxima;
   std::map<std::string, std::string> maxat;
   std::vector<uint64_t> hashes;
   void hash(const Fn* f, int64_t n, const ld* in);
   void count(const std::string& k, long c = 1) { counters[k] += c; }
   void max(const std::string& k, double v, const Fn* f = nullptr, int64_t n = 0, const ld* in = nullptr);
};
void merge(Acc&);
void add_sample(const std::string&);

std::string fmt(ld x);
std::string call_text(const Fn& f, int64_t n, const ld* in);
std::string call_json(const Fn& f, int64_t n, const ld* in);
std::string out_text(const Fn& f, const ld* out);
// report a violation; kind = what was broken, further calls belong to it
void violation(const std::string& kind, const Fn& f, int64_t n, const ld* in, const std::string& msg);
void violation_raw(const std::string& key, const std::string& msg, const std::string& json);

// run the call and note it for the crash and hang handlers
void call(const Fn& f, int64_t n, const ld* in, ld* out);
void announce(const Fn& f, int64_t n, const ld* in, bool begin);      // the same note for calls made another way
void guard_phase(const char* what);
void parallel(long chunks, const std::function<void(long chunk, Acc&)>& body);

std::vector<const Fn*> select(const std::function<bool(const Fn&)>& p);
inline bool same_bits(Prec p, ld a, ld b)
{
   if (a != a || b != b) return a != a && b != b;
   return a == b && std::signbit(a) == std::signbit(b);
}
inline bool finite2(const Fn& f, const ld* o) { return std::isfinite(o[0]) && (!f.is_complex() || std::isfinite(o[1])); }

// ---------------------------------------------------------------- oracle
template <class T> struct RefT { T re, im; };
template <class T> RefT<T> reference(const Fn& f, int64_t n, const ld* in);
// absolute tolerance: A eps |f| + sensitivity + a few denormals
struct Tol { ref::q re, im, mod, sens; double A; };
double acc_units(const Fn& f, int64_t n, const ld* in);          // largest admitted error in units of eps, per function and region
double coarse_units(const Fn& f, int64_t n, const ld* in);       // the same without the surveyed regions
Tol tolerance(const Fn& f, int64_t n, const ld* in);         // quad value, modulus, sensitivity (absolute, includes A eps)
enum { OK = 0, BAD = 1, SKIP = 2 };
// compares one result with the reference; BAD results are reported under kind
int check_acc(const Fn& f, int64_t n, const ld* in, const ld* out, Acc& a, const char* kind, double slack = 1);
// |f - expected| <= slack*(A eps |f| + sens)?  for values derived from other calls; returns error/tolerance
bool huge_angle(const Fn& f, const ld* in);                   // rounding of the angle covers a substantial part of the period
double cl_bound(const Fn& f, int64_t n);                      // largest |Cl_n|, |Sl_n|
void sweep(const std::vector<const Fn*>& fns, double quick_cases, const std::function<In(const Fn&, Rng&)>& gen,
           const std::function<int64_t(Rng&)>& order, const char* kind, double slack = 1);

struct Check { const char* id; void (*run)(); };
extern const Check CHECKS[];
