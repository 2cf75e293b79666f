// Preloaded into the harness and every process it starts: the machine description they see
// (/proc/cpuinfo, the number of processors) is the one in $FAKE_HW.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static __thread char buf[4096];
static const char* map(const char* p) {
  const char* d = getenv("FAKE_HW");
  if (!d || !p || strcmp(p, "/proc/cpuinfo")) return p;
  snprintf(buf, sizeof buf, "%s/cpuinfo", d); return buf;
}
static int procs(void) {
  const char* d = getenv("FAKE_HW"); char b[4096], l[256]; int n = 0;
  if (!d) return 0;
  snprintf(b, sizeof b, "%s/cpuinfo", d);
  FILE* (*f)(const char*, const char*) = dlsym(RTLD_NEXT, "fopen");
  FILE* fp = f(b, "r"); if (!fp) return 0;
  while (fgets(l, sizeof l, fp)) n += !strncmp(l, "processor", 9);
  fclose(fp); return n;
}
#define OPENF(name) int name(const char* p, int fl, ...) { \
  static int (*r)(const char*, int, ...); if (!r) r = dlsym(RTLD_NEXT, #name); \
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return r(map(p), fl, m); }
OPENF(open) OPENF(open64)
#define OPENAT(name) int name(int d, const char* p, int fl, ...) { \
  static int (*r)(int, const char*, int, ...); if (!r) r = dlsym(RTLD_NEXT, #name); \
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return r(d, map(p), fl, m); }
OPENAT(openat) OPENAT(openat64)
#define FOPENF(name) FILE* name(const char* p, const char* m) { \
  static FILE* (*r)(const char*, const char*); if (!r) r = dlsym(RTLD_NEXT, #name); return r(map(p), m); }
FOPENF(fopen) FOPENF(fopen64)
long sysconf(int n) {
  static long (*r)(int); if (!r) r = dlsym(RTLD_NEXT, "sysconf");
  if ((n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) && getenv("FAKE_HW")) return procs();
  return r(n);
}
int get_nprocs(void) { return procs(); }
int get_nprocs_conf(void) { return procs(); }
