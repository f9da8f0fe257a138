// C14: hostile inputs under AddressSanitizer and UndefinedBehaviorSanitizer (compiled into the libraries) or under memcheck.
#include "hostile.hpp"
#include <valgrind/memcheck.h>

static void c14()
{
   const bool vg = RUNNING_ON_VALGRIND != 0;
   const char* o = getenv("PV_ORDERS");
   const int orders = o ? atoi(o) : 1300;
   hostile(vg ? 1500 : 25000, orders, 8, [vg](const Fn& f, int64_t n, const ld* in, Acc& a) {
      ld out[2];
      const unsigned before = vg ? VALGRIND_COUNT_ERRORS : 0;
      call(f, n, in, out);
      a.evals++; a.hash(&f, n, in); a.count(std::string("calls: ") + lang_name(f.lang));
      if (vg) {
         // a result that depends on uninitialised memory
         const bool undef = VALGRIND_CHECK_MEM_IS_DEFINED(&out[0], 10) != 0 || VALGRIND_CHECK_MEM_IS_DEFINED(&out[1], 10) != 0;
         VALGRIND_MAKE_MEM_DEFINED(out, sizeof out);
         if (undef) violation("undefined result", f, n, in, "the result is not completely initialised");
         else if (VALGRIND_COUNT_ERRORS != before) violation("memcheck", f, n, in, "memcheck reports an error inside the call");
      }
   });
}
const Check CHECKS[] = { {"C14", c14}, {0, 0} };
