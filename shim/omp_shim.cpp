#include "omp_shim.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <time.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_start_switch_fiber(void** save, const void* bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void* save, const void** bottom, size_t* size);
#define ASAN_FIBERS 1
#endif

extern "C" {
__attribute__((weak)) void shim_hook_region(int) {}
__attribute__((weak)) void shim_hook_phase(void) {}
__attribute__((weak)) void shim_hook_thread(int) {}
__attribute__((weak)) void shim_hook_lock(int) {}
__attribute__((weak)) void shim_hook_stack(void*, size_t) {}
}

#ifdef SHIM_TL               // one runtime per host thread, so that host threads can use the library concurrently
#include <pthread.h>
#define TL thread_local
static pthread_mutex_t g_mutex = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
#define LOCK() pthread_mutex_lock(&g_mutex)
#define UNLOCK() pthread_mutex_unlock(&g_mutex)
#else
#define TL
#define LOCK() shim_hook_lock(1)
#define UNLOCK() shim_hook_lock(-1)
#endif

namespace {
const int MAXT = 256;
const size_t STK = 1 << 20;

TL int g_order = 0; TL uint64_t g_seed = 0; TL int g_limit = INT_MAX;
TL int g_nthreads = 4; TL bool g_dynamic = false; TL uint64_t g_regions = 0; TL int g_maxteam = 0; TL int g_requested = 0;
TL uint64_t g_rng = 0;

uint64_t rnd() {
  g_rng += 0x9E3779B97F4A7C15ull; uint64_t z = g_rng;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}

// glibc's swapcontext enters the kernel at every switch; plain x86-64 builds switch stacks themselves
#if defined(__x86_64__) && !defined(ASAN_FIBERS) && !defined(__SANITIZE_THREAD__)
#define FAST_SWITCH
extern "C" void shim_switch(void** save, void* to);
asm(R"(
.pushsection .text
.globl shim_switch
.hidden shim_switch
.type shim_switch,@function
shim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size shim_switch,.-shim_switch
.popsection
)");
#endif

enum St { READY, AT_BARRIER, DONE };

struct WorkShare {           // a dynamically scheduled loop / sections construct of the current team
  bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; int left = 0;
  unsigned long long unext = 0, uend = 0, uincr = 1; bool up = true; long ordered_next = 0;
};

struct Team {
  int n = 1; void (*fn)(void*) = nullptr; void* data = nullptr;
#ifdef FAST_SWITCH
  void* sp[MAXT]; void* sched_sp;
#else
  ucontext_t ctx[MAXT];
#endif
  St st[MAXT]; int single_seen[MAXT]; int single_claimed = 0;
  int ws_seen[MAXT]; WorkShare ws[64]; void* copypriv = nullptr;
  void* fake[MAXT];
  bool pre_init = false; WorkShare pre;
};

TL Team* g_team = nullptr;      // innermost team that runs coroutines
TL int g_tid = 0;
TL int g_level = 0;
#ifndef FAST_SWITCH
TL ucontext_t g_sched;
#endif
TL char* g_stk[MAXT];
#ifdef ASAN_FIBERS
const void* g_main_bottom; size_t g_main_size; void* g_main_fake;
#endif

char* stack_for(int i) {
  if (!g_stk[i]) {
    g_stk[i] = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_stk[i] == MAP_FAILED) { fprintf(stderr, "shim: mmap\n"); _exit(99); }
  }
  return g_stk[i];
}

void to_sched(bool last) {
  Team* t = g_team; int i = g_tid; (void)t; (void)i; (void)last;
#ifdef ASAN_FIBERS
  __sanitizer_start_switch_fiber(last ? nullptr : &t->fake[i], g_main_bottom, g_main_size);
#endif
#ifdef FAST_SWITCH
  shim_switch(&t->sp[i], t->sched_sp);
#else
  swapcontext(&t->ctx[i], &g_sched);
#endif
#ifdef ASAN_FIBERS
  __sanitizer_finish_switch_fiber(t->fake[i], nullptr, nullptr);
#endif
}

void entry() {
#ifdef ASAN_FIBERS
  __sanitizer_finish_switch_fiber(nullptr, &g_main_bottom, &g_main_size);
#endif
  Team* t = g_team;
  t->fn(t->data);
  t->st[g_tid] = DONE;
  to_sched(true);
  abort();
}

void resume(Team* t, int i) {
  g_tid = i; shim_hook_thread(i);
#ifdef ASAN_FIBERS
  __sanitizer_start_switch_fiber(&g_main_fake, g_stk[i], STK);
#endif
#ifdef FAST_SWITCH
  shim_switch(&t->sched_sp, t->sp[i]);
#else
  swapcontext(&g_sched, &t->ctx[i]);
#endif
#ifdef ASAN_FIBERS
  __sanitizer_finish_switch_fiber(g_main_fake, nullptr, nullptr);
#endif
}

void order_list(int* o, int n, bool again) {
  for (int i = 0; i < n; i++) o[i] = g_order == 1 ? n - 1 - i : i;
  if (g_order >= 2 && (!again || g_order == 3 || true))
    for (int i = n - 1; i > 0; i--) { int j = (int)(rnd() % (unsigned)(i + 1)); int x = o[i]; o[i] = o[j]; o[j] = x; }
}

void run_team(void (*fn)(void*), void* data, int n, WorkShare* pre) {
  // nested or single-member regions run inline with a team of one
  if (g_team != nullptr || n <= 1) {
    Team* saved_team = g_team; int saved_tid = g_tid;
    if (saved_team == nullptr) {
      static TL Team solo; Team* t = &solo; t->n = 1; t->fn = fn; t->data = data; t->single_claimed = 0;
      t->single_seen[0] = t->ws_seen[0] = 0; for (auto& w : t->ws) w = WorkShare(); t->pre_init = pre != nullptr; if (pre) t->pre = *pre;
      t->st[0] = READY; g_team = t; g_tid = 0; g_level++;
      shim_hook_region(1); shim_hook_thread(0);
      fn(data);
      shim_hook_thread(-1); shim_hook_region(0);
      g_level--; g_team = nullptr; g_tid = 0;
      return;
    }
    Team* t = new Team(); t->n = 1; t->fn = fn; t->data = data; t->pre_init = pre != nullptr; if (pre) t->pre = *pre;
    t->single_seen[0] = t->ws_seen[0] = 0; t->st[0] = READY;
    g_team = t; g_tid = 0; g_level++;
    fn(data);
    g_level--; g_team = saved_team; g_tid = saved_tid; delete t;
    return;
  }
  static TL Team T; Team* t = &T;
  t->n = n; t->fn = fn; t->data = data; t->single_claimed = 0; for (auto& w : t->ws) w = WorkShare();
  t->pre_init = pre != nullptr; if (pre) t->pre = *pre;
  g_regions++; if (n > g_maxteam) g_maxteam = n;
  for (int i = 0; i < n; i++) {
    t->st[i] = READY; t->single_seen[i] = t->ws_seen[i] = 0; t->fake[i] = nullptr;
    char* s = stack_for(i); shim_hook_stack(s, STK);
#ifdef FAST_SWITCH
    uint64_t* f = (uint64_t*)((uintptr_t)(s + STK - 64) & ~(uintptr_t)15);   // where entry() "returns" to
    f[1] = 0; f[0] = (uint64_t)(uintptr_t)&entry; for (int k = 1; k <= 6; k++) f[-k] = 0;
    uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0; fnstcw %1" : "=m"(mx), "=m"(cw)); f[-7] = mx | (uint64_t)cw << 32;
    t->sp[i] = f - 7;
#else
    getcontext(&t->ctx[i]);
    t->ctx[i].uc_stack.ss_sp = s; t->ctx[i].uc_stack.ss_size = STK; t->ctx[i].uc_link = nullptr;
    makecontext(&t->ctx[i], entry, 0);
#endif
  }
  g_team = t; g_level++;
  shim_hook_region(1);
  int ord[MAXT]; bool again = false;
  for (;;) {
    order_list(ord, n, again); again = true;
    int ran = 0;
    for (int k = 0; k < n; k++) if (t->st[ord[k]] == READY) { resume(t, ord[k]); ran++; }
    int done = 0, bar = 0;
    for (int i = 0; i < n; i++) { done += t->st[i] == DONE; bar += t->st[i] == AT_BARRIER; }
    if (done == n) break;
    if (bar == n) { for (int i = 0; i < n; i++) t->st[i] = READY; shim_hook_phase(); continue; }
    if (done + bar == n && ran == 0) { fprintf(stderr, "shim: deadlock: %d threads at a barrier, %d finished\n", bar, done); abort(); }
    if (done + bar == n && bar > 0) { fprintf(stderr, "shim: barrier not reached by all threads (%d of %d)\n", bar, n); abort(); }
  }
  shim_hook_thread(-1); shim_hook_region(0);
  g_level--; g_team = nullptr; g_tid = 0;
}

int team_size(unsigned want) {
  int n = want ? (int)want : g_nthreads;
  if (n > g_limit) n = g_limit;
  if (n > MAXT) n = MAXT;
  if (n < 1) n = 1;
  return n;
}

void barrier() {
  Team* t = g_team; if (!t || t->n <= 1) { shim_hook_phase(); return; }
  t->st[g_tid] = AT_BARRIER; to_sched(false);
}

WorkShare* ws_enter(long start, long end, long incr, long chunk, int kind) {
  Team* t = g_team; int k = t ? t->ws_seen[g_tid]++ % 64 : 0;
  static TL WorkShare serial; WorkShare* w = t ? &t->ws[k] : &serial;
  if (!t) *w = WorkShare();
  if (!w->init) { w->init = true; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk < 1 ? 1 : chunk; w->kind = kind; w->left = t ? t->n : 1; }
  return w;
}
WorkShare* ws_cur() { Team* t = g_team; static TL WorkShare serial; return t ? &t->ws[(t->ws_seen[g_tid] + 63) % 64] : &serial; }
bool ws_next(WorkShare* w, long* is, long* ie) {
  bool more = w->incr > 0 ? w->next < w->end : w->next > w->end;
  if (!more) return false;
  long e = w->next + w->incr * w->chunk;
  if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
  *is = w->next; *ie = e; w->next = e; return true;
}
void ws_leave() { Team* t = g_team; if (!t) return; WorkShare* w = ws_cur(); if (--w->left == 0) *w = WorkShare(); }
}  // namespace

extern "C" {
void shim_configure(int order, uint64_t seed, int limit) { g_order = order; g_seed = seed; g_rng = seed * 7919 + 13; g_limit = limit > 0 ? limit : INT_MAX; }
void shim_reset(void) { g_regions = 0; g_maxteam = 0; g_nthreads = 4; g_requested = 0; g_dynamic = false; g_order = 0; g_limit = INT_MAX; }
uint64_t shim_regions(void) { return g_regions; }
int shim_max_team(void) { return g_maxteam; }
int shim_requested(void) { return g_requested; }
int shim_cur_tid(void) { return g_team ? g_tid : -1; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, team_size(n), nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { int k = team_size(n); run_team(fn, data, k, nullptr); return k; }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start(void) { LOCK(); }
void GOMP_critical_end(void) { UNLOCK(); }
void GOMP_critical_name_start(void**) { LOCK(); }
void GOMP_critical_name_end(void**) { UNLOCK(); }
void GOMP_atomic_start(void) { LOCK(); }
void GOMP_atomic_end(void) { UNLOCK(); }
bool GOMP_single_start(void) {
  Team* t = g_team; if (!t || t->n <= 1) return true;
  int k = t->single_seen[g_tid]++; if (t->single_claimed == k) { t->single_claimed++; return true; } return false;
}
void* GOMP_single_copy_start(void) { if (GOMP_single_start()) return nullptr; barrier(); void* p = g_team->copypriv; barrier(); return p; }
void GOMP_single_copy_end(void* p) { if (!g_team || g_team->n <= 1) return; g_team->copypriv = p; barrier(); barrier(); }

static WorkShare pre_ws(long s, long e, long i, long c, int kind) { WorkShare w; w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c < 1 ? 1 : c; w.kind = kind; return w; }
static void par_loop(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c) {
  WorkShare w = pre_ws(s, e, i, c, 1); run_team(fn, d, team_size(n), &w);
}
#define PARLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(fn, d, n, s, e, i, c); }
PARLOOP(static) PARLOOP(dynamic) PARLOOP(guided) PARLOOP(nonmonotonic_dynamic) PARLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, s, e, i, 1); }

static bool loop_next(long* is, long* ie) {
  Team* t = g_team;
  if (t && t->n > 1) to_sched(false);   // let the other members take chunks too
  if (t && t->pre_init) {
    bool r = ws_next(&t->pre, is, ie);
    return r;
  }
  return ws_next(ws_cur(), is, ie);
}
#define LOOP(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { if (g_team) g_team->pre_init = false; WorkShare* w = ws_enter(s, e, i, c, 1); return ws_next(w, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next(is, ie); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(ordered_static) LOOP(ordered_dynamic)
bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { if (g_team) g_team->pre_init = false; WorkShare* w = ws_enter(s, e, i, 1, 1); return ws_next(w, is, ie); }
bool GOMP_loop_runtime_next(long* is, long* ie) { return loop_next(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return GOMP_loop_runtime_start(s, e, i, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long* is, long* ie) { return loop_next(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return GOMP_loop_runtime_start(s, e, i, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return loop_next(is, ie); }
void GOMP_loop_end(void) { if (!(g_team && g_team->pre_init)) ws_leave(); barrier(); }
bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return false; }
void GOMP_loop_end_nowait(void) { if (!(g_team && g_team->pre_init)) ws_leave(); }
typedef unsigned long long ull;
#define ULOOP(name) \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return GOMP_loop_dynamic_start((long)s, (long)e, (long)i, (long)c, (long*)is, (long*)ie); } \
  bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return loop_next((long*)is, (long*)ie); }
ULOOP(static) ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
unsigned GOMP_sections_start(unsigned n) { WorkShare* w = ws_enter(1, (long)n + 1, 1, 1, 2); long a, b; return ws_next(w, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { if (!(g_team && g_team->pre_init)) ws_leave(); barrier(); }
void GOMP_sections_end_nowait(void) { if (!(g_team && g_team->pre_init)) ws_leave(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { par_loop(fn, d, n, 1, (long)cnt + 1, 1, 1); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
// tasks run immediately
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, ...) {
  if (cpy) { char* raw = (char*)malloc((size_t)size + (size_t)align); char* p = (char*)(((uintptr_t)raw + align - 1) / align * align); cpy(p, data); fn(p); free(raw); }
  else fn(data);
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned, unsigned long, int, long start, long end, long step) {
  char* raw = (char*)malloc((size_t)size + (size_t)align); char* p = (char*)(((uintptr_t)raw + align - 1) / align * align);
  if (cpy) cpy(p, data); else memcpy(p, data, (size_t)size);
  ((long*)p)[0] = start; ((long*)p)[1] = end; (void)step; fn(p); free(raw);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

void omp_set_num_threads(int n) { g_requested = n; if (n > 0) g_nthreads = n; }
int omp_get_num_threads(void) { return g_team ? g_team->n : 1; }
int omp_get_max_threads(void) { return g_nthreads; }
int omp_get_thread_num(void) { return g_team ? g_tid : 0; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return g_team && g_team->n > 1; }
void omp_set_dynamic(int d) { g_dynamic = d; }
int omp_get_dynamic(void) { return g_dynamic; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return g_limit; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
int omp_get_level(void) { return g_level; }
int omp_get_active_level(void) { return g_team && g_team->n > 1; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : g_tid; }
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* a, int* b) { *a = 1; *b = 0; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void* l) { *(int*)l = 0; }
void omp_destroy_lock(void*) {}
void omp_set_lock(void*) { LOCK(); }
void omp_unset_lock(void*) { UNLOCK(); }
int omp_test_lock(void*) { LOCK(); return 1; }
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void*) { LOCK(); }
void omp_unset_nest_lock(void*) { UNLOCK(); }
}
