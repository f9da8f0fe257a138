// C17: many threads call a mix of functions, from the first call of the process on; every result is compared bit for
// bit with the result the call returns in a process with one thread. Built with ThreadSanitizer and without.
#include "hostile.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <algorithm>

struct Call { const Fn* f; int64_t n; ld in[2]; };
struct Bits { unsigned char b[20]; };
static Bits eval(const Call& c)
{
   ld out[2]; call(*c.f, c.n, c.in, out); Bits r; memset(&r, 0, sizeof r);
   for (int k = 0; k < (c.f->is_complex() ? 2 : 1); ++k) { if (out[k] != out[k]) r.b[10*k] = 1; else memcpy(r.b + 10*k, &out[k], 10); }
   return r;
}
static std::string text(const Fn& f, const Bits& b) { ld x[2] = { 0, 0 }; for (int k = 0; k < 2; ++k) { memcpy(&x[k], b.b + 10*k, 10); } return out_text(f, x); }

static void c17()
{
   const char* e = getenv("PV_CALLS"); const long per = e ? atol(e) : 4000;      // different calls
   const char* e2 = getenv("PV_REPEAT"); const int rounds = e2 ? atoi(e2) : 8;
   guard_phase("reference results");
   const auto v = select([](const Fn&) { return true; });
   std::vector<Call> W; Rng r(cfg.seed, 17);
   // every function with every region, all generic orders that use another method or table, random and hostile calls
   for (auto f : v) {
      const auto& pts = region_points(f->prec);
      const int step = f->order == GENERIC ? 3 : 2;
      for (size_t i = r.below(step); i < pts.size(); i += step) {
         Call c = { f, f->order, { pts[i].re, f->kind == Z ? pts[i].im : 0 } };
         if (f->order == GENERIC) for (int64_t n : { (int64_t)-400, (int64_t)-180, (int64_t)-40, (int64_t)-3, (int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)2, (int64_t)3, (int64_t)7, (int64_t)8, (int64_t)30, (int64_t)60, (int64_t)300, (int64_t)1 << 40 }) { c.n = n; W.push_back(c); }
         else W.push_back(c);
      }
   }
   while ((long)W.size() < 12000 + per) { const Fn* f = v[r.below(4) ? r.below(v.size()) : v.size() - 1 - r.below(3)]; const In x = r.below(3) ? gen_for(*f, r) : gen_any(*f, r); Call c = { f, f->order == GENERIC ? gen_order_any(r) : f->order, { x.re, f->kind == Z ? x.im : 0 } }; W.push_back(c); }
   for (size_t i = W.size(); i > 1; --i) std::swap(W[i - 1], W[r.below(i)]);
   std::vector<Bits> B(W.size());
   // single-threaded, in another process, so that the first calls of this one are concurrent
   { int p[2]; if (pipe2(p, O_CLOEXEC)) _exit(5); const pid_t pid = fork();
     if (pid == 0) { for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS }) signal(s, SIG_DFL); for (const Call& c : W) { const Bits b = eval(c); if (write(p[1], &b, sizeof b) != (ssize_t)sizeof b) _exit(1); } _exit(0); }
     close(p[1]); for (size_t i = 0; i < W.size(); ++i) { size_t got = 0; ssize_t k; while (got < sizeof(Bits) && (k = read(p[0], (char*)&B[i] + got, sizeof(Bits) - got)) > 0) got += k; if (got < sizeof(Bits)) { violation("call ends the process", *W[i].f, W[i].n, W[i].in, "the process ends without a result"); return; } }
     close(p[0]); int st; waitpid(pid, &st, 0); }
   guard_phase("concurrent calls");
   const int T = 16;
   std::atomic<int> ready{0}; std::atomic<long> overlap{0}; static std::atomic<const Fn*> now[64];
   std::vector<std::thread> th;
   for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
      Acc a; Rng q(cfg.seed*6151 + t, 18); long same = 0, other = 0;
      ++ready; while (ready < T) {}
      for (int k = 0; k < rounds; ++k) {
         // all threads go through the list from different places; in every second round two neighbours walk side by side
         const size_t start = k == 0 ? 0 : k % 2 ? (t/2)*W.size()*2/T : q.below(W.size());
         for (size_t i = 0; i < W.size(); ++i) {
            const Call& c = W[(start + i) % W.size()]; const Bits& w = B[(start + i) % W.size()];
            now[t].store(c.f, std::memory_order_relaxed);
            const Bits b = eval(c);
            for (int u = 0; u < T; ++u) if (u != t) { const Fn* g = now[u].load(std::memory_order_relaxed); if (g == c.f) ++same; else if (g) ++other; }
            if (memcmp(&b, &w, sizeof b)) violation("differs under concurrency", *c.f, c.n, c.in, "returns " + text(*c.f, b) + " next to other threads and " + text(*c.f, w) + " alone");
            a.evals++; if (k == 0) a.hash(c.f, c.n, c.in);
         }
      }
      now[t] = nullptr;
      a.count("concurrent calls", a.evals); a.count("other threads seen in the same function", same); a.count("other threads seen in another function", other);
      merge(a);
   });
   for (auto& t : th) t.join();
   guard_phase("one function in all threads");
   static std::atomic<long> turn; const long nf = (long)v.size();
   // all threads hammer one function with different arguments
   std::vector<std::vector<size_t>> by(nf);
   for (size_t i = 0; i < W.size(); ++i) by[W[i].f - v[0]].push_back(i);
   std::vector<std::thread> th2; std::atomic<int> arrived{0};
   for (int t = 0; t < T; ++t) th2.emplace_back([&, t] {
      Acc a;
      for (long f = 0; f < nf; ++f) {
         ++arrived; while (arrived < T*(f + 1)) std::this_thread::yield();
         const auto& ix = by[f]; if (ix.empty()) continue;
         const int reps = std::max(1, (int)(rounds*200/ix.size()));
         for (int k = 0; k < reps; ++k) for (size_t j = 0; j < ix.size(); ++j) {
            const size_t i = ix[(j + t*ix.size()/T) % ix.size()]; const Bits b = eval(W[i]);
            if (memcmp(&b, &B[i], sizeof b)) violation("differs under concurrency", *W[i].f, W[i].n, W[i].in, "returns " + text(*W[i].f, b) + " next to other threads and " + text(*W[i].f, B[i]) + " alone");
            a.evals++;
         }
      }
      a.count("calls with all threads in one function", a.evals); merge(a);
   });
   for (auto& t : th2) t.join();
}
const Check CHECKS[] = { {"C17", c17}, {0, 0} };
