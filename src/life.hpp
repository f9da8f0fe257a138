// C29: shared between the driver (p_life.cpp) and the programs under observation (life_host.cpp, life_dl.cpp)
#pragma once
#include <cstdint>
#include <cstring>
enum Stage { MAIN, PREINIT, CTOR101, STATIC_INIT, STATIC_EXIT, ATEXIT, THREAD, TLS_EXIT, KEY_EXIT, FORKED, EXITING, SECCOMP, STARVED, LOCALE, SMALL_STACK, DL1, DL2, DL3, DL4, STAGES };
static const char* const STAGE[] = { "main", "the functions of .preinit_array, before anything is initialised", "a constructor of priority 101", "the initialiser of a static object", "the destructor of a static object",
   "the last atexit handler, after the destructors of all static objects", "another thread", "the destructor of a thread_local object, after those the calls of the thread may have created", "the destructor of a pthread key",
   "a child forked while other threads are in calls", "threads that are still running while the process exits", "a process that may not make system calls any more (seccomp)", "a process without memory to allocate and without open files",
   "another locale and environment", "a thread with a stack of 32 KiB",
   "a library loaded by dlopen", "a library loaded again after dlclose", "a library loaded into a name space of its own", "a thread that is older than the loaded library" };
struct Rec { int32_t f, pad; int64_t n; long double in[2]; };
struct Bits { unsigned char b[24]; };
struct Head { int64_t w, offset; volatile int64_t cur[STAGES], done[STAGES], bad[STAGES]; };      // bad: 1 + index of a call whose result differs (FORKED, EXITING)
struct Life {
   Head* h; Rec* rec; Bits* bits;
   Bits* at(int stage, int64_t i) const { return bits + (int64_t)stage*h->w + i; }
   void map(void* p) { h = (Head*)p; rec = (Rec*)((char*)p + 4096); bits = (Bits*)(rec + h->w); }
   static size_t size(int64_t w) { return 4096 + w*sizeof(Rec) + w*STAGES*sizeof(Bits); }
};
