// C29: the functions at unusual moments of a process's life and in unusual surroundings. Other programs (life_host.cpp,
// life_dl.cpp) make the calls and leave the bits of the results in shared memory; here they are compared with the bits
// the same program gets from main().
#include "hostile.hpp"
#include "life.hpp"
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> v; std::istringstream i(s); std::string t; while (std::getline(i, t, c)) v.push_back(t); return v; }
static std::string text(const Fn& f, const Bits& b) { ld x[2] = { 0, 0 }; for (int k = 0; k < 2; ++k) memcpy(&x[k], b.b + 10*k, 10); return out_text(f, x); }

struct Exit { int code, sig; bool late; std::string err; };
static Exit run_program(const std::vector<std::string>& argv, const std::string& life_env, const std::string& errfile)
{
   std::vector<char*> a; for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str())); a.push_back(nullptr);
   const pid_t q = fork();
   if (q == 0) {
      for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS }) signal(s, SIG_DFL);
      const int n = open("/dev/null", O_RDWR), e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(n, 0); dup2(n, 1); dup2(e, 2);
      if (!life_env.empty()) setenv("PV_LIFE", life_env.c_str(), 1);
      setenv("MALLOC_PERTURB_", "165", 1); setenv("LC_ALL", "C.UTF-8", 1); setenv("TZ", "Asia/Kathmandu", 1);
      execv(a[0], a.data()); _exit(6);
   }
   Exit r = { 0, 0, false, "" }; int x = 0;
   for (int ms = 0; ; ms += 5) {
      const pid_t w = waitpid(q, &x, WNOHANG); if (w == q) break;
      if (ms > 60000) { kill(q, SIGKILL); waitpid(q, &x, 0); r.late = true; break; }
      usleep(5000);
   }
   if (WIFSIGNALED(x)) r.sig = WTERMSIG(x); else r.code = WEXITSTATUS(x);
   std::ifstream i(errfile.c_str()); std::ostringstream o; o << i.rdbuf(); r.err = o.str().substr(0, 600);
   return r;
}

static void c29()
{
   guard_phase("moments of a process's life");
   const char *dir = getenv("PV_LIFE_DIR"), *hosts = getenv("PV_LIFE_HOSTS"), *dl = getenv("PV_LIFE_DL");
   if (!dir || !hosts || !dl) _exit(5);
   std::vector<Rec> W; Rng r(cfg.seed, 29); const auto& fns = api();
   for (size_t fi = 0; fi < fns.size(); ++fi) {
      const Fn* f = &fns[fi]; const auto& pts = region_points(f->prec); const bool g = f->order == GENERIC;
      const long m = g ? (cfg.thorough ? 60000 : 6000) : (cfg.thorough ? 2000 : 150);
      for (long j = 0; j < m; ++j) {
         const In z = j & 1 ? gen_for(*f, r) : pts[r.below(pts.size())];
         Rec c; memset(&c, 0, sizeof c); c.f = (int32_t)fi;
         c.n = !g ? f->order : j % 3 == 0 ? gen_order_any(r) : gen_order_small(r, -60, 120);
         c.in[0] = f->kind == Z || j & 1 ? z.re : z.re*2.1L; c.in[1] = f->kind == Z ? z.im : 0;
         W.push_back(c);
      }
   }
   const size_t size = Life::size(W.size());
   struct Plan { long mask; const char* what; };
   auto bit = [](int s) { return 1l << s; };
   std::vector<long> plans;
   for (int s = PREINIT; s < DL1; ++s) for (int k = 0; k < (s == EXITING ? cfg.thorough ? 300 : 12 : s == FORKED ? cfg.thorough ? 60 : 2 : cfg.thorough ? 20 : 1); ++k) plans.push_back(bit(s));
   plans.push_back(bit(PREINIT) | bit(CTOR101) | bit(STATIC_INIT) | bit(MAIN) | bit(THREAD) | bit(TLS_EXIT) | bit(KEY_EXIT) | bit(LOCALE) | bit(STATIC_EXIT) | bit(ATEXIT));
   plans.push_back(bit(MAIN) | bit(SECCOMP)); plans.push_back(bit(STATIC_EXIT) | bit(ATEXIT)); plans.push_back(bit(MAIN) | bit(STARVED));
   struct Job { std::string label, exe; long mask; int id; };
   std::mutex mu;
   auto judge = [&](const std::string& label, const Life& l, const Bits* base, long mask, const Exit& e, Acc& a) {
      auto where = [&](int s) { return std::string(s == FORKED || s == EXITING ? "in " : "called in ") + STAGE[s]; };
      for (int s = 0; s < STAGES; ++s) {
         if (!(mask >> s & 1)) continue;
         if (l.h->done[s] == 2) { a.count("skipped: seccomp is not available"); continue; }
         if (l.h->done[s] == 3) violation_raw(label + "writes to released memory", label + "a call writes to memory that has been released, " + where(s), "");
         if (l.h->bad[s]) {
            const int64_t i = l.h->bad[s] - 1; const Fn& f = fns[W[i].f];
            violation("differs", f, W[i].n, W[i].in, label + "returns " + text(f, *l.at(s, i)) + " in " + STAGE[s] + ", and " + text(f, base[i]) + " in main()");
         }
         if (!l.h->done[s]) {
            const int64_t i = l.h->cur[s] - 1;
            if (i >= 0) { const Fn& f = fns[W[i].f]; violation(e.late ? "hangs" : "ends the process", f, W[i].n, W[i].in, label + (e.late ? "does not return" : "ends the process (" + (e.sig ? "signal " + std::to_string(e.sig) : "exit code " + std::to_string(e.code)) + ")") + ", " + where(s) + "; " + e.err); }
            else if (e.sig || e.code || e.late) violation_raw(label + "process fails", label + "a process that only calls the functions " + (e.late ? "does not end" : "ends with signal " + std::to_string(e.sig) + ", exit code " + std::to_string(e.code)) + ", " + where(s) + "; " + e.err, "");
            else violation_raw(label + "stage not reached", label + "the process ends before " + STAGE[s], "");
            return;                                        // what follows did not run
         }
         if (s == FORKED || s == EXITING) { a.count(std::string("processes: ") + STAGE[s]); a.evals += (long)W.size(); continue; }
         long n = 0;
         for (size_t i = 0; i < W.size(); ++i) {
            const Fn& f = fns[W[i].f]; ++n;
            if (s == MAIN) a.hash(&f, W[i].n, W[i].in);
            if (memcmp(l.at(s, i), &base[i], sizeof(Bits))) violation("differs", f, W[i].n, W[i].in, label + "returns " + text(f, *l.at(s, i)) + ", " + where(s) + ", and " + text(f, base[i]) + " in main()");
         }
         a.evals += n; a.count(std::string("calls: ") + STAGE[s], n);
      }
      if (e.sig || e.code || e.late) violation_raw(label + "process fails", label + "a process that only calls the functions " + (e.late ? "does not end" : "ends with signal " + std::to_string(e.sig) + ", exit code " + std::to_string(e.code)) + " after all calls; " + e.err, "");
   };
   int serial = 0;
   auto prepare = [&](const Bits* base) {
      int id; { std::lock_guard<std::mutex> g(mu); id = serial++; }
      const std::string path = std::string(dir) + "/life-" + std::to_string(id);
      const int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, size)) _exit(5);
      void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (p == MAP_FAILED) _exit(5);
      Head* h = (Head*)p; h->w = W.size(); Life l; l.map(p); h->offset = (cfg.seed*7919 + id*104729) % W.size();
      memcpy(l.rec, W.data(), W.size()*sizeof(Rec)); if (base) memcpy(l.at(MAIN, 0), base, W.size()*sizeof(Bits));
      return std::make_pair(path, l);
   };
   auto finish = [&](std::pair<std::string, Life>& m) { munmap(m.second.h, size); unlink(m.first.c_str()); unlink((m.first + ".err").c_str()); };
   // the results of main()
   auto hv = split(hosts, ';'); std::vector<std::vector<Bits>> base(hv.size() + 1); bool dead = false;
   parallel(hv.size(), [&](long k, Acc& a) {
      const auto h = split(hv[k], '='); auto m = prepare(nullptr);
      const Exit e = run_program({ h[1] }, m.first + " " + std::to_string(bit(MAIN)), m.first + ".err");
      if (e.code == 6 || e.code == 7 || e.code == 8) { fprintf(stderr, "%s: %d %s\n", h[1].c_str(), e.code, e.err.c_str()); _exit(5); }
      base[k].assign(m.second.at(MAIN, 0), m.second.at(MAIN, 0) + W.size());
      judge(h[0], m.second, base[k].data(), bit(MAIN), e, a); if (!m.second.h->done[MAIN]) dead = true;
      finish(m);
   });
   if (dead) return;
   parallel(hv.size()*plans.size(), [&](long j, Acc& a) {
      const size_t k = j % hv.size(); const long mask = plans[j/hv.size()]; const auto h = split(hv[k], '='); auto m = prepare(base[k].data());
      const Exit e = run_program({ h[1] }, m.first + " " + std::to_string(mask), m.first + ".err");
      if (e.code == 6 || e.code == 7 || e.code == 8) { fprintf(stderr, "%s: %d %s\n", h[1].c_str(), e.code, e.err.c_str()); _exit(5); }
      judge(h[0], m.second, base[k].data(), mask, e, a);
      a.count("processes"); finish(m);
   });
   // loaded at run time: the last host has the same libraries
   parallel(cfg.thorough ? 100 : 2, [&](long, Acc& a) {
      auto v = split(dl, ';'); auto m = prepare(nullptr); v.insert(v.begin() + 2, m.first);
      const Exit e = run_program(v, "", m.first + ".err");
      if (e.code == 6 || e.code == 7) { fprintf(stderr, "%s: %d %s\n", v[0].c_str(), e.code, e.err.c_str()); _exit(5); }
      for (auto& t : split(e.err, '|')) if (t.find("libm)") != std::string::npos) violation_raw("cannot be loaded alone " + t.substr(0, t.find(':')), t.substr(0, t.find(':')) + " is not linked with libm and cannot be loaded by a program that has not loaded libm", "");
         else if (!t.empty()) violation_raw("cannot be loaded", "cannot be loaded at run time: " + t, "");
      if (e.code != 9) { Exit f = e; f.err = ""; judge("[loaded] ", m.second, base[hv.size() - 1].data(), bit(DL1) | bit(DL2) | bit(DL3) | bit(DL4), f, a); }
      a.count("processes"); finish(m);
   });
}
const Check CHECKS[] = { {"C29", c29}, {0, 0} };
