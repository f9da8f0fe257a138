// C29: loads the libraries at run time. life_dl <plugin> <file> <libraries...>
#include "life.hpp"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
typedef int (*Run)(void*, int);
static void* shared; static const char* plugin;
static void* load(long ns) { void* d = ns == LM_ID_BASE ? dlopen(plugin, RTLD_NOW | RTLD_LOCAL) : dlmopen(ns, plugin, RTLD_NOW | RTLD_LOCAL); if (!d) { fprintf(stderr, "|the three libraries: %s", dlerror()); _exit(9); } return d; }
static Run entry(void* d) { return (Run)dlsym(d, "life_run"); }
static pthread_barrier_t b; static Run late;
static void* old_thread(void*) { pthread_barrier_wait(&b); late(shared, DL4); pthread_barrier_wait(&b); pthread_barrier_wait(&b); return nullptr; }
int main(int argc, char** argv)
{
   plugin = argv[1];
   for (int i = 3; i < argc; ++i) {                       // each library alone
      void* d = dlopen(argv[i], RTLD_NOW | RTLD_LOCAL); const char* name = strrchr(argv[i], '/') + 1;
      if (d) { dlclose(d); continue; }
      fprintf(stderr, "|%s: %s", name, dlerror());
      if (dlopen("libm.so.6", RTLD_NOW | RTLD_GLOBAL) && (d = dlopen(argv[i], RTLD_NOW | RTLD_LOCAL))) { fprintf(stderr, " (loads if the program has loaded libm)"); dlclose(d); }
   }
   const int fd = open(argv[2], O_RDWR); struct stat st; if (fd < 0 || fstat(fd, &st)) return 7;
   shared = mmap(nullptr, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
   pthread_barrier_init(&b, nullptr, 2);
   pthread_t t; pthread_create(&t, nullptr, old_thread, nullptr);
   void* d = load(LM_ID_BASE); entry(d)(shared, DL1); dlclose(d);
   for (int k = 0; k < 3; ++k) { d = load(LM_ID_BASE); entry(d)(shared, DL2); if (k < 2) dlclose(d); }
   late = entry(d); pthread_barrier_wait(&b); pthread_barrier_wait(&b);
   void* e = load(LM_ID_NEWLM); entry(e)(shared, DL3); dlclose(e);
   dlclose(d);                                           // while the other thread is alive
   pthread_barrier_wait(&b); pthread_join(t, nullptr);
   return 0;
}
