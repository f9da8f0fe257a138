// C29: a program (or, with -DPLUGIN, a library) that makes the calls of a list at a given moment of its life and records
// the bits of the results in shared memory. PV_LIFE = "<file> <mask of stages>".
#include "api.hpp"
#include "life.hpp"
#include <cerrno>
#include <clocale>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <linux/seccomp.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

static Life life;
#ifdef PLUGIN
static int touched() { return 0; }
#else
static int touched();
#endif
static long mask;
static const Fn* table;

static Bits make(const Rec& c)
{
   long double out[2] = { 0, 0 }; const Fn& f = table[c.f]; f.call(c.n, c.in, out);
   Bits r; memset(&r, 0, sizeof r);
   for (int k = 0; k < (f.is_complex() ? 2 : 1); ++k) { if (out[k] != out[k]) r.b[10*k] = 1; else memcpy(r.b + 10*k, &out[k], 10); }
   return r;
}
static void open_life(const char* s)
{
   if (life.h || !s) return;
   char path[512]; if (sscanf(s, "%511s %ld", path, &mask) != 2) _exit(7);
   const int fd = open(path, O_RDWR); struct stat st;
   if (fd < 0 || fstat(fd, &st)) _exit(7);
   void* p = mmap(nullptr, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
   if (p == MAP_FAILED) _exit(7);
   life.map(p);
   table = (new std::vector<Fn>(api()))->data();          // never destroyed
}
static void run(int stage)
{
   if (!life.h || !(mask >> stage & 1)) return;
   const int64_t w = life.h->w;
   for (int64_t k = 0; k < w; ++k) { const int64_t i = (k + life.h->offset) % w; life.h->cur[stage] = i + 1; *life.at(stage, i) = make(life.rec[i]); }
   life.h->cur[stage] = 0; life.h->done[stage] = touched() ? 3 : 1;
}
// calls that are compared here, with the results of the stage main of another process
static uint64_t rnd(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s*0x2545f4914f6cdd1dull >> 20; }
static bool compare(int stage, int64_t i)
{
   const Bits b = make(life.rec[i]); if (!memcmp(&b, life.at(MAIN, i), sizeof b)) return true;
   if (!life.h->bad[stage]) { *life.at(stage, i) = b; life.h->bad[stage] = i + 1; }
   return false;
}
static volatile bool stop_threads = false, endless = false;
static void* hammer(void* arg)
{
   uint64_t s = 88172645463325252ull + (uintptr_t)arg*7919; int64_t i = 0;
   for (int64_t k = 0; !stop_threads; ++k) { if (k % 16 == 0) i = rnd(s) % life.h->w; compare(endless ? EXITING : FORKED, (i + k % 16) % life.h->w); }
   return nullptr;
}

#ifdef PLUGIN
extern "C" int life_run(void* p, int stage)
{
   life.map(p); mask = -1;
   if (!table) table = (new std::vector<Fn>(api()))->data();
   run(stage); return 0;
}
#else
static bool starving = false;
// memory given back is overwritten, kept, and looked at again: reads of it give nonsense, writes are seen
static struct { void* p; size_t n; } kept[4096];
static int nkept = 0;
static int touched()
{
   for (int i = 0; i < 4096 && i < nkept; ++i) for (size_t j = 0; j < kept[i].n; ++j) if (((unsigned char*)kept[i].p)[j] != 0x5a) return i + 1;
   return 0;
}
extern "C" {
size_t malloc_usable_size(void*); void __libc_free(void*);
void free(void* p)
{
   if (!p) return;
   const size_t n = malloc_usable_size(p); const int i = n < 1u << 16 ? __atomic_fetch_add(&nkept, 1, __ATOMIC_RELAXED) : 4096;
   if (i >= 4096) { nkept = 4096; __libc_free(p); return; }
   memset(p, 0x5a, n); kept[i].p = p; __atomic_store_n(&kept[i].n, n, __ATOMIC_RELEASE);
}
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { if (starving) { errno = ENOMEM; return nullptr; } return __libc_malloc(n); }
void* calloc(size_t m, size_t n) { if (starving) { errno = ENOMEM; return nullptr; } return __libc_calloc(m, n); }
void* realloc(void* p, size_t n) { if (starving) { errno = ENOMEM; return nullptr; } return __libc_realloc(p, n); }
}
static void last()
{
   run(ATEXIT);
   if (life.h && mask >> EXITING & 1) { usleep(20000); life.h->done[EXITING] = 1; _exit(0); }
}
static void preinit(int, char**, char** envp)
{
   for (char** e = envp; *e; ++e) if (!strncmp(*e, "PV_LIFE=", 8)) open_life(*e + 8);
   if (!life.h) return;
   run(PREINIT);
   if (mask & (1l << ATEXIT | 1l << EXITING)) atexit(last);
}
__attribute__((section(".preinit_array"), used)) static void (*const preinit_entry)(int, char**, char**) = preinit;
__attribute__((constructor(101))) static void first_constructor() { run(CTOR101); }
static struct Object { Object() { run(STATIC_INIT); } ~Object() { run(STATIC_EXIT); } } object;

struct Tls { bool used = false; ~Tls() { run(TLS_EXIT); } };
static thread_local Tls tls;
static pthread_key_t key;
static void key_exit(void*) { run(KEY_EXIT); }
static void* thread_stage(void*) { run(THREAD); run(SMALL_STACK); return nullptr; }
static void* tls_stage(void*) { tls.used = true; for (int64_t i = 0; i < life.h->w; ++i) make(life.rec[i]); return nullptr; }
static void* key_stage(void*) { pthread_setspecific(key, &key); for (int64_t i = 0; i < life.h->w; ++i) make(life.rec[i]); return nullptr; }
static void in_thread(void* (*f)(void*), size_t stack = 0)
{
   pthread_attr_t a; pthread_attr_init(&a); if (stack) pthread_attr_setstacksize(&a, stack);
   pthread_t t; if (pthread_create(&t, &a, f, nullptr)) _exit(8);
   pthread_join(t, nullptr);
}
static void forks()
{
   pthread_t t[4]; for (long k = 0; k < 4; ++k) pthread_create(&t[k], nullptr, hammer, (void*)k);
   uint64_t s = 1234567 + life.h->offset;
   for (int k = 0; k < 250 && !life.h->bad[FORKED]; ++k) {
      for (volatile long j = rnd(s) % 40000; j > 0; j = j - 1) {}
      const int64_t i0 = rnd(s);
      const pid_t q = fork();
      if (q == 0) {
         alarm(20); bool ok = true;
         for (int64_t j = 0; j < 400; ++j) { const int64_t i = (i0 + j*37) % life.h->w; life.h->cur[FORKED] = i + 1; ok &= compare(FORKED, i); }
         life.h->cur[FORKED] = 0; _exit(ok ? 0 : 1);
      }
      int x = 0; waitpid(q, &x, 0);
      if (WIFSIGNALED(x)) { stop_threads = true; _exit(100 + WTERMSIG(x)); }
   }
   stop_threads = true; for (auto& x : t) pthread_join(x, nullptr);
   life.h->done[FORKED] = 1;
}
int main()
{
   if (!life.h) return 7;
   run(MAIN);
   if (mask >> THREAD & 1) in_thread(thread_stage);
   if (mask >> SMALL_STACK & 1) in_thread(thread_stage, 32 << 10);
   if (mask >> TLS_EXIT & 1) in_thread(tls_stage);
   if (mask >> KEY_EXIT & 1) { pthread_key_create(&key, key_exit); in_thread(key_stage); }
   if (mask >> LOCALE & 1) { for (const char* l : { "tr_TR.UTF-8", "de_DE.UTF-8", "C.UTF-8" }) setlocale(LC_ALL, l); run(LOCALE); }
   if (mask >> FORKED & 1) forks();
   if (mask >> EXITING & 1) { endless = true; pthread_t t; for (long k = 0; k < 4; ++k) { pthread_create(&t, nullptr, hammer, (void*)(k + life.h->offset)); pthread_detach(t); } usleep(3000); return 0; }
   if (mask >> STARVED & 1) {
      for (int fd = 0; fd < 64; ++fd) close(fd);
      struct rlimit r = { 0, 0 }; setrlimit(RLIMIT_NOFILE, &r); setrlimit(RLIMIT_AS, &r); setrlimit(RLIMIT_DATA, &r);
      clearenv(); starving = true; run(STARVED); _exit(0);
   }
   if (mask >> SECCOMP & 1) {
      if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_STRICT)) { life.h->done[SECCOMP] = 2; _exit(0); }
      run(SECCOMP); syscall(SYS_exit, 0);
   }
   return 0;
}
#endif
