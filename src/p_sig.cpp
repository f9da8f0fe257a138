// C28: calls may be interrupted at any instruction by a signal handler that calls the functions itself, and may be
// abandoned there for good. The handler of SIGTRAP runs after every single instruction of a call (trap flag of x86):
// the interruption points of a call are enumerated, not sampled.
#include "hostile.hpp"
#include <csetjmp>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <x86intrin.h>

struct Call { const Fn* f; int64_t n; ld in[2]; };
struct Bits { unsigned char b[20]; };
static Bits pack(const Fn& f, const ld* out)
{
   Bits r; memset(&r, 0, sizeof r);
   for (int k = 0; k < (f.is_complex() ? 2 : 1); ++k) { if (out[k] != out[k]) r.b[10*k] = 1; else memcpy(r.b + 10*k, &out[k], 10); }
   return r;
}
static std::string text(const Fn& f, const Bits& b) { ld x[2] = { 0, 0 }; for (int k = 0; k < 2; ++k) memcpy(&x[k], b.b + 10*k, 10); return out_text(f, x); }

static std::vector<Call> W;
static std::vector<Bits> B;               // results without interruption
static std::vector<unsigned> cost;        // clock cycles

// ------------------------------------------------------------------ stepping
enum { CALL_AT_EACH, ABANDON };
struct Step {
   volatile int mode; volatile long count, limit, inner, bad; volatile long stride;
   const Call* g; const Bits* want; Bits got; long badcount; sigjmp_buf out;
   uint64_t* seen; volatile long nseen;   // program counters, hashed
};
static const long NSEEN = 1 << 17;
static thread_local Step* st = nullptr;
static void on_trap(int, siginfo_t*, void* u)
{
   ucontext_t* uc = (ucontext_t*)u; Step* s = st;
   if (!s) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
   const long k = ++s->count;
   const uint64_t pc = (uint64_t)uc->uc_mcontext.gregs[REG_RIP], h = pc*0x9e3779b97f4a7c15ull >> 47;
   for (uint64_t i = 0; i < 8; ++i) { uint64_t& x = s->seen[(h + i) % NSEEN]; if (x == pc) break; if (!x) { x = pc; s->nseen = s->nseen + 1; break; } }
   if (s->mode == ABANDON) { if (k >= s->limit) siglongjmp(s->out, 1); return; }
   if (k >= s->limit) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
   if (k % s->stride) return;
   ld out[2] = { 0, 0 }; s->g->f->call(s->g->n, s->g->in, out);
   const Bits b = pack(*s->g->f, out); s->inner = s->inner + 1;
   if (!s->bad && memcmp(&b, s->want, sizeof b)) { s->bad = k; s->got = b; }
}
// the handler's stack: larger than it may get, to see how much of it is used
static const size_t ALT = 512 << 10, ALLOWED = 32 << 10;
static thread_local char* alt = nullptr;
static void handler_stack()
{
   alt = (char*)mmap(nullptr, ALT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
   stack_t s; s.ss_flags = 0; s.ss_size = ALT; s.ss_sp = alt; sigaltstack(&s, nullptr);
}
static size_t stack_used() { size_t i = 0; while (i < ALT && !*(uint64_t*)(alt + i)) i += 8; return ALT - i; }
static void install() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGTRAP, &sa, nullptr); }
static inline void trap_on() { asm volatile("subq $128,%%rsp\n\tpushfq\n\torq $0x100,(%%rsp)\n\tpopfq\n\taddq $128,%%rsp" ::: "memory", "cc"); }
static inline void trap_off() { asm volatile("subq $128,%%rsp\n\tpushfq\n\tandq $~0x100,(%%rsp)\n\tpopfq\n\taddq $128,%%rsp" ::: "memory", "cc"); }
static __attribute__((noinline)) void stepped(const Call& c, ld* out) { trap_on(); c.f->call(c.n, c.in, out); trap_off(); }
static __attribute__((noinline)) bool abandoned(Step& s, const Call& c, long at)
{
   ld out[2]; s.mode = ABANDON; s.count = 0; s.limit = at;
   if (sigsetjmp(s.out, 0)) return true;
   stepped(c, out); return false;
}
static Bits plain(const Call& c) { ld out[2] = { 0, 0 }; c.f->call(c.n, c.in, out); return pack(*c.f, out); }

// one call of c with g called after each of its instructions
static void interrupt(Step& s, size_t c, size_t g, Acc& a)
{
   s.mode = CALL_AT_EACH; s.count = s.inner = 0; s.bad = 0; s.g = &W[g]; s.want = &B[g]; s.limit = 20000; s.stride = cost[g] > 60000 ? 64 : cost[g] > 8000 ? 8 : 1;
   ld out[2] = { 0, 0 }; const Fn& f = *W[c].f;
   announce(f, W[c].n, W[c].in, true); stepped(W[c], out); announce(f, W[c].n, W[c].in, false);
   const Bits b = pack(f, out); const std::string gt = call_text(*W[g].f, W[g].n, W[g].in);
   if (memcmp(&b, &B[c], sizeof b)) violation("interrupted call differs", f, W[c].n, W[c].in, "returns " + text(f, b) + " when a signal handler calls " + gt + " during the call, and " + text(f, B[c]) + " otherwise");
   if (s.bad) violation("call in a handler differs", *W[g].f, W[g].n, W[g].in, "returns " + text(*W[g].f, s.got) + " in a signal handler that interrupts " + call_text(f, W[c].n, W[c].in) + " after " + std::to_string(s.bad) + " instructions, and " + text(*W[g].f, B[g]) + " otherwise");
   const size_t u = stack_used(); a.max("stack of the signal handler in bytes", (double)u, W[g].f, W[g].n, W[g].in);
   if (u > ALLOWED) { violation("stack of a handler", *W[g].f, W[g].n, W[g].in, "needs " + std::to_string(u) + " bytes of stack in a signal handler, more than an alternate signal stack of 32 KiB offers"); memset(alt, 0, ALT - 4096); }
   a.evals++; a.hash(&f, W[c].n, W[c].in); a.count("interrupted calls"); a.count("instructions of interrupted calls", s.count); a.count("calls made in the signal handler", s.inner);
   if (W[g].f == &f) a.count("interrupted calls: handler calls the same function");
}
static bool after(size_t c, size_t d, long at, std::string& what)
{
   const Bits b = plain(W[d]); if (!memcmp(&b, &B[d], sizeof b)) return true;
   what = "returns " + text(*W[d].f, b) + " after a call of " + call_text(*W[c].f, W[c].n, W[c].in) + " was abandoned (siglongjmp out of a signal handler) after " + std::to_string(at) + " instructions, and " + text(*W[d].f, B[d]) + " otherwise";
   return false;
}

// ------------------------------------------------------------------ first calls of a process
// each case runs in a child of a process that has not called any function; the child tells its verdict by its exit code
static int first_call(size_t c, size_t g, bool abandon, long at, Step& s)
{
   for (int x : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS }) signal(x, SIG_DFL);
   st = &s; handler_stack(); alarm(20);
   if (abandon) { if (!abandoned(s, W[c], at)) return 4; std::string w; return after(c, c, at, w) && after(c, g, at, w) ? 0 : 2; }
   s.mode = CALL_AT_EACH; s.count = s.inner = 0; s.bad = 0; s.g = &W[g]; s.want = &B[g]; s.limit = 4000; s.stride = 1;
   ld out[2] = { 0, 0 }; stepped(W[c], out); const Bits b = pack(*W[c].f, out);
   return s.bad ? 3 : memcmp(&b, &B[c], sizeof b) ? 1 : 0;
}
static void first_calls(const std::vector<size_t>& pick)
{
   guard_phase("first calls of a process");
   const int K = cfg.threads; struct Msg { int32_t i, code, sig; int32_t at; };
   int p[2]; if (pipe2(p, O_CLOEXEC)) _exit(5);
   std::vector<pid_t> kids;
   for (int k = 0; k < K; ++k) {
      const pid_t w = fork();
      if (w) { kids.push_back(w); continue; }
      Step* s = (Step*)mmap(nullptr, sizeof(Step), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); s->seen = (uint64_t*)mmap(nullptr, NSEEN*8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      Rng r(cfg.seed*31 + k, 29);
      for (size_t i = k; i < pick.size(); i += K) for (int j = 0; j < (cfg.thorough ? 40 : 5); ++j) {
         const long at = j == 0 ? 0 : j < 3 ? 1 + r.below(60) : 1 + r.below(1 + cost[pick[i]]/2);
         // in the handler: the same call, or another one of the function
         size_t g = pick[i]; for (int t = 0; t < 300 && r.below(3); ++t) { g = r.below(W.size()); if (W[g].f == W[pick[i]].f) break; g = pick[i]; }
         const pid_t q = fork();
         if (q == 0) _exit(first_call(pick[i], g, j > 0, at, *s));
         int x = 0; waitpid(q, &x, 0);
         const Msg m = { (int32_t)pick[i], WIFEXITED(x) ? WEXITSTATUS(x) : -1, WIFSIGNALED(x) ? WTERMSIG(x) : 0, (int32_t)at };
         if (write(p[1], &m, sizeof m) != (ssize_t)sizeof m || m.sig == SIGALRM) _exit(1);
      }
      _exit(0);
   }
   close(p[1]); Msg m; Acc a;
   while (read(p[0], &m, sizeof m) == (ssize_t)sizeof m) {
      const Call& c = W[m.i]; a.evals++; a.count(m.at ? m.code == 4 ? "first calls of a process that ended before the chosen instruction" : "first calls of a process abandoned" : "first calls of a process interrupted");
      if (m.sig) violation(m.sig == SIGALRM ? "first call hangs" : "first call crashes", *c.f, c.n, c.in, std::string(m.sig == SIGALRM ? "does not return" : "ends the process") + " as the first call of a process that is " + (m.at ? "abandoned after " + std::to_string(m.at) + " instructions and repeated" : "interrupted by a signal handler calling the same function") + (m.sig == SIGALRM ? "" : " (signal " + std::to_string(m.sig) + ")"));
      else if (m.code && m.code != 4) violation("first call differs", *c.f, c.n, c.in, m.code == 2 ? "later results differ when the first call of a process was abandoned after " + std::to_string(m.at) + " instructions" : std::string("the first call of a process, interrupted by a signal handler calling the same function, ") + (m.code == 3 ? "makes the call in the handler differ" : "returns another value"));
   }
   for (pid_t k : kids) waitpid(k, nullptr, 0);
   merge(a);
}

static void c28()
{
   guard_phase("results without interruption");
   const auto v = select([](const Fn&) { return true; });
   Rng r(cfg.seed, 28); std::vector<size_t> pick;
   for (auto f : v) {
      const auto& pts = region_points(f->prec);
      std::vector<int64_t> orders = { -200, -60, -7, -2, -1, 0, 1, 2, 3, 6, 8, 20, 61, 300 };
      const size_t fixed = orders.size();
      if (f->order != GENERIC) orders.resize(1);
      else { for (int64_t n = 4; n < 45; ++n) orders.push_back(n); for (int i = 0; i < 40; ++i) orders.push_back(i & 1 ? gen_order_any(r) : -(int64_t)(3 + r.below(200))); }
      for (size_t k = 0; k < orders.size(); ++k) {
         const int64_t n = orders[k];
         for (int j = 0; j < (f->order == GENERIC ? k < fixed ? 10 : 6 : 60); ++j) {
            const In z = j & 1 ? gen_for(*f, r) : pts[r.below(pts.size())];
            Call c = { f, f->order == GENERIC ? n : f->order, { f->kind == Z || j & 1 ? z.re : z.re*2.1L, f->kind == Z ? z.im : 0 } };
            if (j < (f->order == GENERIC ? 2 : 8)) pick.push_back(W.size());
            W.push_back(c);
         }
      }
   }
   B.resize(W.size()); cost.resize(W.size());
   install();
   { int p[2]; if (pipe2(p, O_CLOEXEC)) _exit(5); const pid_t pid = fork();
     if (pid == 0) { for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS }) signal(s, SIG_DFL);
        for (const Call& c : W) { const Bits b = plain(c); const uint64_t t = __rdtsc(); plain(c); const unsigned u = (unsigned)std::min<uint64_t>(__rdtsc() - t, 1000000); if (write(p[1], &b, sizeof b) != (ssize_t)sizeof b || write(p[1], &u, sizeof u) != (ssize_t)sizeof u) _exit(1); }
        _exit(0); }
     close(p[1]);
     auto get = [&](void* x, size_t n) { size_t got = 0; ssize_t k; while (got < n && (k = read(p[0], (char*)x + got, n - got)) > 0) got += k; return got == n; };
     for (size_t i = 0; i < W.size(); ++i) if (!get(&B[i], sizeof(Bits)) || !get(&cost[i], sizeof(unsigned))) { violation("call ends the process", *W[i].f, W[i].n, W[i].in, "the process ends without a result"); return; }
     close(p[0]); waitpid(pid, nullptr, 0); }
   first_calls(pick);

   std::mutex mu; std::vector<Step*> all;
   auto stepper = [&](const std::function<void(Step&, Acc&)>& body, Acc& a) {
      static thread_local Step* s = nullptr;
      if (!s) { s = new Step; s->seen = new uint64_t[NSEEN](); s->nseen = 0; handler_stack(); std::lock_guard<std::mutex> l(mu); all.push_back(s); }
      st = s; body(*s, a); st = nullptr;
   };
   guard_phase("calls interrupted at every instruction");
   parallel(cases(16000), [&](long c, Acc& a) {
      Rng q(cfg.seed*7919 + c, 30); const size_t i = q.below(W.size()); size_t g = q.below(W.size());
      if (q.below(4)) for (int t = 0; t < 100 && W[g].f != W[i].f; ++t) g = i > 70 ? i - 70 + q.below(std::min<size_t>(140, W.size() - i + 70)) : q.below(W.size());
      stepper([&](Step& s, Acc& b) { interrupt(s, i, g, b); }, a);
   });
   guard_phase("calls abandoned at a random instruction");
   parallel(cases(20000)/32, [&](long c, Acc& a) {
      Rng q(cfg.seed*6007 + c, 31);
      stepper([&](Step& s, Acc& b) {
         // every other time one call is abandoned many times before later results are looked at
         const int burst = c & 1 ? 32 : 1;
         for (int k = 0; k < 32/burst; ++k) {
            size_t i = q.below(3) ? pick[q.below(pick.size())] : q.below(W.size()); long at = 0;
            if (burst > 1 && (c & 2)) for (int t = 0; t < 1000 && W[i].f->order != GENERIC; ++t) i = q.below(W.size());
            int early = 0;
            for (int j = 0; j < burst; ++j) {
               at = 1 + (long)q.below(std::min(1500u, cost[i]));
               announce(*W[i].f, W[i].n, W[i].in, true); early += abandoned(s, W[i], at); announce(*W[i].f, W[i].n, W[i].in, false);
            }
            b.count("calls that ended before the chosen instruction", burst - early); b.count("calls abandoned", early);
            if (!early) continue;
            const size_t g = i > 70 ? i - 70 + q.below(std::min<size_t>(140, W.size() - i + 70)) : q.below(W.size());
            std::string w; for (size_t d : { i, g }) if (!after(i, d, at, w)) { violation("differs after an abandoned call", *W[d].f, W[d].n, W[d].in, w); break; }
            b.evals += early; b.hash(W[i].f, W[i].n, W[i].in); b.count("calls compared after an abandoned one", 2); if (burst > 1) b.count("calls abandoned many times in a row");
         }
      }, a);
   });
   std::set<uint64_t> pcs; for (Step* s : all) for (long i = 0; i < NSEEN; ++i) if (s->seen[i]) pcs.insert(s->seen[i]);
   Acc a; a.max("distinct instructions interrupted (in one process)", (double)pcs.size()); merge(a);
}
const Check CHECKS[] = { {"C28", c28}, {0, 0} };
