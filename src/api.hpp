// Every public function of the three libraries behind one calling convention.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

enum Lang { CPP, CC, FTN };
enum Kind { R, Z, C_, S_ };      // real Li, complex Li, Clausen Cl, Clausen Sl
enum Prec { F, D, L };
static const int GENERIC = INT32_MIN;

struct Fn {
   std::string name;       // e.g. "cpp:Li2(complex<double>)", "c:cli2", "f:cdli2", "cpp:Li(n,z)"
   Lang lang; Kind kind; Prec prec;
   int order;              // GENERIC: order passed at run time
   void (*call)(int64_t n, const long double* in, long double* out);  // in = {re, im}
   bool is_complex() const { return kind == Z; }
};

const std::vector<Fn>& api();
const Fn* find_fn(const std::string& name);
const char* lang_name(Lang);
double eps_of(Prec);
