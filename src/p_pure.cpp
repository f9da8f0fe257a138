// C15: calls have no effect but their result. Observed around real calls: the caller's argument, the floating-point
// environment, errno, the writable memory of the libraries, the heap, the standard streams; and results of the same
// calls after different histories (in fresh processes, different orders, after hostile calls, on a poisoned stack).
#include "hostile.hpp"
#include <cerrno>
#include <cfenv>
#include <csignal>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>
#include <algorithm>

#define FN_C(f, n, k, p)
#define FN_F(f, n, k) extern "C" void f_##f(void*, void*);
#define FN_P(f, n, k, p)
#include "api_table.inc"
#undef FN_F
struct Raw { const char* name; int order; Kind kind; void (*f)(void*, void*); };
static const Kind C = C_;
static const Raw RAW[] = {
#define FN_F(g, n, k) { "f:" #g, n, k, f_##g },
#include "api_table.inc"
};
#undef FN_F

// ------------------------------------------------------------------ arguments by reference
static void arguments()
{
   guard_phase("arguments passed by reference");
   const size_t page = 4096;
   const long N = sizeof RAW/sizeof *RAW;
   for (int ro = 0; ro < 2 && R_.viol.empty(); ++ro) parallel(N*8, [&](long c, Acc& a) {
      const Raw& h = RAW[c % N]; const Fn& f = *find_fn(h.name); Rng r(cfg.seed*389 + c, 15 + ro);
      // the argument lies at the very end of a page, followed by an inaccessible one
      char* m = (char*)mmap(nullptr, 2*page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      mprotect(m + page, page, PROT_NONE);
      const size_t w = h.kind == Z ? 16 : 8; double* arg = (double*)(m + page - w); double* before = arg - 2;
      for (int i = 0; i < cases(1500); ++i) {
         In x = r.below(3) ? gen_any(f, r) : gen_for(f, r); const ld in[2] = { x.re, h.kind == Z ? x.im : 0 }; double z[2] = { (double)in[0], (double)in[1] }, y[4] = { 0, 0, 1234.5, -77 }, save[4];
         if (i % 8 == 0 || !ro) mprotect(m, page, PROT_READ | PROT_WRITE);
         if (ro && i % 8 == 0) for (size_t k = 0; k < page/8; ++k) { In t = gen_any(f, r); ((double*)m)[k] = (double)(k % 2 || h.kind != Z ? t.re : t.im); }
         double* p = arg;
         if (ro) { p = (double*)m + (page - w)/8 - (i % 8)*(w/8); z[0] = p[0]; z[1] = h.kind == Z ? p[1] : 0; if (i % 8 == 0) mprotect(m, page, PROT_READ); }   // a constant actual argument
         else { before[0] = 3.25; before[1] = -9.5; memcpy(p, z, w); }
         memcpy(save, p, w);
         const ld zz[2] = { z[0], h.kind == Z ? z[1] : 0 };
         announce(f, h.order, zz, true); h.f(p, y); announce(f, h.order, zz, false);
         a.evals++; a.hash(&f, 0, zz); a.count(ro ? "calls with constant arguments" : "calls by reference");
         if (memcmp(save, p, w) || (!ro && (before[0] != 3.25 || before[1] != -9.5))) { violation("argument modified", f, h.order, zz, "the caller's variable is changed to (" + fmt(p[0]) + "," + fmt(w == 16 ? p[1] : 0) + ")"); }
         if (y[2] != 1234.5 || y[3] != -77) violation("writes beyond the result", f, h.order, zz, "memory next to the result is changed");
      }
      munmap(m, 2*page);
   });
}

// ------------------------------------------------------------------ floating-point environment, errno
struct X87 { uint16_t cw, r0, sw, r1, tag, r2; uint32_t rest[4]; };
static X87 x87() { X87 e; __asm__ volatile("fnstenv %0\n\tfldenv %0" : "+m"(e)); return e; }
static void set_cw(uint16_t cw) { __asm__ volatile("fldcw %0" : : "m"(cw)); }

static void environment()
{
   hostile(2500, 60, 6, [](const Fn& f, int64_t n, const ld* in, Acc& a) {
      static thread_local uint64_t k = 0; ++k;
      const unsigned mx0 = _mm_getcsr(); const uint16_t cw0 = x87().cw;
      // the mode the caller has chosen
      static const unsigned RC[] = { 0, 0, 0, 3, 1, 2 };          // rounding: nearest, towards zero, down, up
      unsigned rc = RC[k % 6]; if (f.order == GENERIC && rc != 0) rc = n >= 0 && n < 60 ? 3 : 0;      // series need not converge under directed rounding
      unsigned mx = (0x1f80u | (k % 4 == 1 ? 0x8040u : 0) | rc << 13) | (unsigned)(k % 3 == 0 ? 0x3f : 0);      // FTZ and DAZ, sticky flags
      uint16_t cw = (uint16_t)((0x037f & ~(k % 5 == 2 && f.prec != L && f.order != GENERIC ? 0x100 : 0)) | rc << 10);      // precision control
      ld out[2]; errno = 7777;
      set_cw(cw); _mm_setcsr(mx);
      call(f, n, in, out);
      const unsigned mx1 = _mm_getcsr(); const X87 e = x87(); const int en = errno;
      _mm_setcsr(mx0); set_cw(cw0);
      a.evals++; a.hash(&f, n, in); a.count("floating-point environments compared");
      if ((mx1 & 0xffc0u) != (mx & 0xffc0u)) violation("SSE control word", f, n, in, "MXCSR changes from " + std::to_string(mx) + " to " + std::to_string(mx1));
      if (e.cw != cw && ((e.cw ^ cw) & 0x0f3f)) violation("x87 control word", f, n, in, "the control word changes from " + std::to_string(cw) + " to " + std::to_string(e.cw));
      if (e.tag != 0xffff) violation("x87 stack", f, n, in, "values are left on the x87 stack");
      if (en != 7777 && en != EDOM && en != ERANGE) violation("errno", f, n, in, "errno is set to " + std::to_string(en));
   });
}

// ------------------------------------------------------------------ memory of the libraries, heap, streams
struct Seg { const char* p; size_t n; };
static int collect(dl_phdr_info* i, size_t, void* v)
{
   if (!i->dlpi_name || !strstr(i->dlpi_name, "libpolylogarithm")) return 0;
   for (int k = 0; k < i->dlpi_phnum; ++k) {
      const ElfW(Phdr)& h = i->dlpi_phdr[k];
      if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) ((std::vector<Seg>*)v)->push_back({ (const char*)(i->dlpi_addr + h.p_vaddr), h.p_memsz });
      if (h.p_type == PT_TLS && i->dlpi_tls_data) ((std::vector<Seg>*)v)->push_back({ (const char*)i->dlpi_tls_data, h.p_memsz });
   }
   return 0;
}
static uint64_t checksum(size_t* bytes, int* nseg)
{
   std::vector<Seg> v; dl_iterate_phdr(collect, &v);
   uint64_t h = 1469598103934665603ull; *bytes = 0; *nseg = (int)v.size();
   for (const Seg& s : v) { for (size_t i = 0; i < s.n; ++i) h = (h ^ (unsigned char)s.p[i])*1099511628211ull; *bytes += s.n; }
   return h;
}
// what the libraries under the library keep: the writable segments of libc, libm, libstdc++, libgfortran, ..., which hold
// the state of random numbers, strtok, the locale, the time zone, ...
static int collect_below(dl_phdr_info* i, size_t, void* v)
{
   if (!i->dlpi_name || !strstr(i->dlpi_name, ".so") || strstr(i->dlpi_name, "libpolylogarithm") || strstr(i->dlpi_name, "ld-linux")) return 0;
   for (int k = 0; k < i->dlpi_phnum; ++k) { const ElfW(Phdr)& h = i->dlpi_phdr[k];
      if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) ((std::vector<std::pair<std::string, Seg>>*)v)->push_back({ i->dlpi_name, { (const char*)(i->dlpi_addr + h.p_vaddr), h.p_memsz } }); }
   return 0;
}
static void memory_below(Acc& acc, const std::vector<const Fn*>& v, Rng& r)
{
   static ld args[256][2]; static int64_t ns[256]; ld out[2];
   std::vector<std::pair<std::string, Seg>> segs; dl_iterate_phdr(collect_below, &segs); std::vector<std::vector<char>> before;
   for (auto& s : segs) before.emplace_back(s.second.n);
   // the bookkeeping of the heap is not meant: find it by using the heap
   std::vector<std::vector<char>> heap; for (auto& s : segs) heap.emplace_back(s.second.n, 0);
   auto snapshot = [&] { for (size_t k = 0; k < segs.size(); ++k) memcpy(before[k].data(), segs[k].second.p, segs[k].second.n); };
   for (int round = 0; round < 60; ++round) {
      snapshot(); static void* q[400]; Rng h(cfg.seed, 155 + round);
      for (void*& p : q) p = malloc(h.below(4) ? 1 + h.below(3000) : 1 + h.below(300000));
      for (int i = 0; i < 400; ++i) if ((i + round) % 3) { free(q[i]); q[i] = nullptr; }
      for (void*& p : q) if (!p) p = malloc(1 + h.below(2000));
      for (int i = 399; i >= 0; --i) free(q[i]);
      for (size_t k = 0; k < segs.size(); ++k) for (size_t i = 0; i < segs[k].second.n; ++i) if (before[k][i] != segs[k].second.p[i]) heap[k][i] = 1;
   }
   long left_out = 0;
   for (auto& m : heap) { // the bins of sizes that did not occur lie in between
      size_t last = 0; bool any = false;
      for (size_t i = 0; i < m.size(); ++i) if (m[i]) { if (any && i - last < 512) memset(&m[last], 1, i - last); else memset(&m[i & ~(size_t)15], 1, 16); last = i; any = true; }
      for (char c : m) left_out += c;
   }
   acc.count("bytes of heap bookkeeping left out", left_out);
   auto differs = [&](size_t k) { if (!memcmp(before[k].data(), segs[k].second.p, segs[k].second.n)) return false;
      for (size_t i = 0; i < segs[k].second.n; ++i) if (!heap[k][i] && before[k][i] != segs[k].second.p[i]) return true;
      return false; };
   for (auto f : v) for (int round = 0; round < 2; ++round) {
      for (int i = 0; i < 256; ++i) {
         const In x = i < 128 ? gen_for(*f, r) : gen_any(*f, r); args[i][0] = x.re; args[i][1] = f->kind == Z ? x.im : 0;
         ns[i] = f->order != GENERIC ? f->order : i % 3 == 0 ? gen_order_any(r) : gen_order_small(r, -180, 180);
      }
      for (int i = 0; i < 256; ++i) call(*f, ns[i], args[i], out); // lazy binding, the heap in its steady state
      signgam = 4242;
      snapshot();
      for (int i = 0; i < 256; ++i) call(*f, ns[i], args[i], out);
      auto blame = [&](auto changed, const std::string& what) { // which call is it?
         for (int i = 0; i < 256; ++i) { if (changed([&] { call(*f, ns[i], args[i], out); })) { violation("global state", *f, ns[i], args[i], what); return; } }
         violation("global state", *f, ns[0], args[0], what + " (first of 256 calls)"); };
      if (signgam != 4242) blame([&](auto one) { signgam = 4242; one(); return signgam != 4242; }, "the caller's signgam changes (lgamma)");
      for (size_t k = 0; k < segs.size(); ++k) if (differs(k))
         blame([&](auto one) { one(); snapshot(); one(); return differs(k); }, "static memory of " + segs[k].first + " changes");
      acc.evals += 512; acc.count("comparisons of the memory of the libraries below");
   }
}
static void memory()
{
   guard_phase("memory of the libraries");
   Acc acc; const auto v = select([](const Fn&) { return true; });
   ld out[2];
   for (auto f : v) for (const In& z : region_points(f->prec)) { const ld in[2] = { z.re, f->kind == Z ? z.im : 0 }; if (f->order == GENERIC) for (int64_t n : { -200, -3, 1, 3, 7, 9, 40 }) call(*f, n, in, out); else call(*f, f->order, in, out); }
   size_t bytes; int nseg; uint64_t s0 = checksum(&bytes, &nseg);
   acc.count("segments of writable library memory", nseg); acc.count("bytes of writable library memory", (long)bytes);
   Rng r(cfg.seed, 151);
   for (int round = 0; round < 2; ++round) for (auto f : v) {
      for (int i = 0; i < cases(1500); ++i) {
         const In x = gen_any(*f, r); const ld in[2] = { x.re, f->kind == Z ? x.im : 0 }; const int64_t n = f->order == GENERIC ? gen_order_any(r) : f->order;
         call(*f, n, in, out); acc.evals++; acc.hash(f, n, in);
      }
      const uint64_t s1 = checksum(&bytes, &nseg);
      if (s1 != s0) { const ld in[2] = { 0, 0 }; violation("global state", *f, 2, in, "writable memory of the libraries changes during calls with hostile arguments"); s0 = s1; }
      acc.count("memory comparisons");
   }
   memory_below(acc, v, r);
   // the heap: no bookkeeping of our own between the two readings
   for (auto f : v) {
      static ld args[512][2]; static int64_t ns[512];
      for (int i = 0; i < 512; ++i) { const In x = gen_any(*f, r); args[i][0] = x.re; args[i][1] = f->kind == Z ? x.im : 0; ns[i] = f->order == GENERIC ? gen_order_any(r) : f->order; }
      const struct mallinfo2 m0 = mallinfo2();
      for (int k = 0; k < 4; ++k) for (int i = 0; i < 512; ++i) { call(*f, ns[i], args[i], out); acc.evals++; }
      const struct mallinfo2 m1 = mallinfo2(); const long long grown = (long long)(m1.uordblks + m1.hblkhd) - (long long)(m0.uordblks + m0.hblkhd);
      acc.count("heap comparisons");
      if (grown > 512) violation("heap", *f, ns[0], args[0], std::to_string(grown) + " bytes of heap are kept after 2048 calls");
   }
   merge(acc);
}

// ------------------------------------------------------------------ histories
struct Call { const Fn* f; int64_t n; ld in[2]; };
struct Bits { unsigned char b[20]; };
static Bits bits(const Fn& f, const ld* out)
{
   Bits r; memset(&r, 0, sizeof r);
   for (int k = 0; k < (f.is_complex() ? 2 : 1); ++k) { if (out[k] != out[k]) r.b[10*k] = 1; else memcpy(r.b + 10*k, &out[k], 10); }
   return r;
}
static __attribute__((noinline)) void poison(unsigned pattern)
{
   volatile uint64_t junk[2048];
   static const uint64_t P[] = { 0, ~0ull, 0x7ff8000000000000ull, 0x3ff0000000000000ull, 0x4000000040000000ull, 0xfff0000000000000ull, 0x7fefffffffffffffull, 1 };
   for (int i = 0; i < 2048; ++i) junk[i] = P[pattern & 7];
}
static Bits eval(const Call& c) { ld out[2]; call(*c.f, c.n, c.in, out); return bits(*c.f, out); }

static std::vector<Call> group(Rng& r)
{
   static const std::vector<const Fn*> v = select([](const Fn&) { return true; });
   const Fn& f = *v[r.below(3) ? r.below(v.size()) : v.size() - 1 - r.below(3)];
   const In x = r.below(6) ? gen_for(f, r) : gen_any(f, r); const int64_t n = f.order == GENERIC ? (r.below(3) ? gen_order_small(r, -12, 40) : gen_order_any(r)) : f.order;
   std::vector<Call> g;
   auto add = [&](const Fn& h, int64_t m, ld a, ld b) { a = std::isfinite(a) ? round_to(h.prec, a) : a; b = std::isfinite(b) ? round_to(h.prec, b) : b; if (h.kind != Z) b = 0; Call c = { &h, h.order == GENERIC ? m : h.order, { a, b } }; g.push_back(c); };
   add(f, n, x.re, x.im); add(f, n, x.re, -x.im); add(f, n, -x.re, x.im); add(f, n, x.im, x.re); add(f, n, x.re, 0.0L); add(f, n, x.re, -0.0L);
   add(f, n, ulp_step(f.prec, x.re, 1), x.im); add(f, n, x.re, ulp_step(f.prec, x.im, 1)); add(f, n, 0.0L, x.im); add(f, n, -0.0L, x.im); add(f, n, NAN, x.im); add(f, n, x.re/2, x.im/2); add(f, n, 1/x.re, x.im);
   for (int i = 0; i < 3; ++i) { const In y = gen_for(f, r); add(f, n, y.re, y.im); }
   if (f.order == GENERIC) for (int64_t d : { -2, -1, 1, 2 }) if (n < INT64_MAX - 2 && n > INT64_MIN + 2) add(f, n + d, x.re, x.im);
   if (f.order == GENERIC && n != INT64_MIN) add(f, -n, x.re, x.im);
   // calls that a key of fewer bits, another type or a reduced angle would confuse
   if (f.order == GENERIC) for (int b : { 8, 16, 31, 32, 48, 63 }) { int64_t m; if (!__builtin_add_overflow(n, b == 63 ? INT64_MIN : (int64_t)1 << b, &m)) add(f, m, x.re, x.im); else if (!__builtin_sub_overflow(n, b == 63 ? INT64_MIN : (int64_t)1 << b, &m)) add(f, m, x.re, x.im); }
   add(f, n, (float)x.re, (float)x.im); add(f, n, (double)x.re, (float)x.im); add(f, n, std::trunc(x.re), std::trunc(x.im)); add(f, n, x.re, 2*x.im); add(f, n, -x.re, -x.im);
   if (f.kind == C_ || f.kind == S_) { const ld p2 = 2*3.14159265358979323846264338327950288L; add(f, n, x.re + p2, 0); add(f, n, x.re - p2, 0); add(f, n, p2 - x.re, 0); }
   for (int i = 0; i < 4; ++i) { const Fn& h = *v[r.below(v.size())]; add(h, n, x.re, x.im); }
   return g;
}

static void histories()
{
   guard_phase("histories in fresh processes");
   const long groups = cases(1600); std::vector<std::vector<Call>> G(groups); std::vector<std::vector<Bits>> B(groups);
   { Rng r(cfg.seed, 152); for (auto& g : G) g = group(r); }
   auto differs = [&](const Call& c, const Bits& a, const Bits& b, const char* how) {
      if (!memcmp(&a, &b, sizeof a)) return false;
      ld x[2] = { 0, 0 }, y[2] = { 0, 0 }; for (int k = 0; k < 2; ++k) { memcpy(&x[k], a.b + 10*k, 10); memcpy(&y[k], b.b + 10*k, 10); }
      violation("depends on earlier calls", *c.f, c.n, c.in, std::string("returns ") + out_text(*c.f, x) + " once and " + out_text(*c.f, y) + " " + how); return true;
   };
   // each group in three fresh processes, in three orders: the parent has not called the library yet
   parallel((groups + 15)/16, [&](long c, Acc& a) {
      for (long gi = 16*c; gi < std::min(groups, 16*c + 16); ++gi) {
         auto& g = G[gi]; Rng r(cfg.seed*53 + gi, 153);
         for (int run = 0; run < 3; ++run) {
            std::vector<int> o; for (int i = 0; i < (int)g.size(); ++i) { o.push_back(i); if (run && r.below(3) == 0) o.push_back(i); }
            if (run == 1) std::reverse(o.begin(), o.end()); if (run == 2) for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
            int p[2]; if (pipe2(p, O_CLOEXEC)) { perror("pipe"); _exit(5); }
            const pid_t pid = fork();
            if (pid == 0) { for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS }) signal(s, SIG_DFL); alarm(60); for (int i : o) { poison(run + i); const Bits b = eval(g[i]); if (write(p[1], &b, sizeof b) != (ssize_t)sizeof b) _exit(1); } _exit(0); }
            close(p[1]); std::vector<Bits> res(g.size()); std::vector<bool> have(g.size(), false); bool all = true;
            for (int i : o) { Bits b; size_t got = 0; ssize_t k; while (got < sizeof b && (k = read(p[0], (char*)&b + got, sizeof b - got)) > 0) got += k; if (got < sizeof b) { all = false; violation("call ends the process", *g[i].f, g[i].n, g[i].in, "the process ends without a result"); break; }
               a.evals++; a.hash(g[i].f, g[i].n, g[i].in); a.count("results from fresh processes");
               if (have[i]) differs(g[i], res[i], b, "when repeated"); else { res[i] = b; have[i] = true; } }
            close(p[0]); int st; waitpid(pid, &st, 0); a.count("fresh processes");
            if (!all) { B[gi].clear(); break; }
            if (run == 0) B[gi] = res; else for (size_t i = 0; i < g.size(); ++i) differs(g[i], B[gi][i], res[i], "after other calls");
         }
      }
   });
   guard_phase("long histories");
   const auto v = select([](const Fn&) { return true; });
   parallel(16, [&](long c, Acc& a) {
      Rng r(cfg.seed*59 + c, 154);
      for (int i = 0; i < cases(30000); ++i) {
         const long gi = r.below(groups); if (B[gi].empty()) continue;
         const size_t k = r.below(G[gi].size());
         switch (r.below(4)) {
         case 0: poison(i); break;
         case 1: { const Fn& f = *v[r.below(v.size())]; const In x = gen_any(f, r); const ld in[2] = { x.re, f.kind == Z ? x.im : 0 }; ld out[2]; call(f, f.order == GENERIC ? gen_order_any(r) : f.order, in, out); a.count("hostile calls in between"); break; }
         case 2: feraiseexcept(FE_ALL_EXCEPT); errno = ERANGE; break;
         default: feclearexcept(FE_ALL_EXCEPT); errno = 0;
         }
         a.evals++; a.count("results after long histories"); differs(G[gi][k], B[gi][k], eval(G[gi][k]), "after a long history");
      }
   });
   guard_phase("many repetitions");        // two calls alternating, far more often than a table, a counter or a cache would hold
   parallel((long)v.size()*4, [&](long c, Acc& a) {
      const Fn& f = *v[c/4]; Rng r(cfg.seed*61 + c, 155); Call x[2]; Bits b[2];
      for (int k = 0; k < 2; ++k) { const In z = gen_for(f, r); x[k].f = &f; x[k].n = f.order == GENERIC ? gen_order_small(r, 1, 20) : f.order; x[k].in[0] = z.re; x[k].in[1] = f.kind == Z ? z.im : 0; b[k] = eval(x[k]); }
      for (int i = 0; i < cases(35000, 10); ++i) { a.evals++; if (differs(x[i & 1], b[i & 1], eval(x[i & 1]), "after many repetitions")) break; }
      a.count("repeated calls", cases(35000, 10));
   });
}

static void c15()
{
   // nothing may be printed: the streams go to files while the library runs
   char t[] = "/tmp/pv-streams-XXXXXX"; const int fd = mkstemp(t); unlink(t);
   fflush(stdout); fflush(stderr); const int o1 = dup(1), o2 = dup(2);
   histories();             // first: needs a process that has not called the library
   arguments(); environment(); memory();
   dup2(fd, 1); dup2(fd, 2);
   Acc a; const auto v = select([](const Fn&) { return true; }); ld out[2];
   for (auto f : v) { Rng r(cfg.seed, 156); for (int i = 0; i < 2000; ++i) { const In x = gen_any(*f, r); const ld in[2] = { x.re, f->kind == Z ? x.im : 0 }; f->call(f->order == GENERIC ? gen_order_any(r) : f->order, in, out); a.evals++; } fflush(stdout); fflush(stderr); struct stat st; fstat(fd, &st);
      if (st.st_size) { const ld in[2] = { 0, 0 }; violation("output", *f, 2, in, "the library prints on a standard stream"); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); } a.count("streams compared"); }
   dup2(o1, 1); dup2(o2, 2); close(fd); merge(a);
}
const Check CHECKS[] = { {"C15", c15}, {0, 0} };
