// Race detector over every load and store of the library ("trace" variant).  The library is
// compiled with the compiler's thread-sanitizer instrumentation; the callbacks are ours and
// see one deterministic execution of coroutines.  Two accesses of one parallel region, between
// the same two barriers, by different team members, at least one a write, not both inside
// critical/atomic: a race in every schedule, whatever order the members happened to run in.
#include "race.h"
#include "omp_shim.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <link.h>
#include <new>
#include <vector>

namespace {
struct Cell { uintptr_t key; uint32_t epoch; int16_t w, r; uint8_t wl, rl, split; const void* wpc; const void* rpc; };
const size_t NC = 1u << 21;
Cell* T;
uint32_t g_epoch = 1; int g_tid = -1; int g_in = 0; int g_lock = 0; bool g_on = false; size_t g_used = 0;
RaceInfo g_info; std::vector<void*> g_deferred;
uintptr_t tls_lo, tls_hi;

int cb(struct dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_name && i->dlpi_name[0]) return 0;   // the executable only
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { tls_lo = (uintptr_t)i->dlpi_tls_data; tls_hi = tls_lo + i->dlpi_phdr[k].p_memsz; }
  return 0;
}
inline size_t hsh(uintptr_t k) { return (size_t)((k * 0x9E3779B97F4A7C15ull) >> 20) & (NC - 1); }

void report(uintptr_t addr, int other, bool wr, bool owr, const void* pc, const void* opc) {
  if (g_info.found) return;
  g_info.found = true; g_info.addr = addr; g_info.t1 = other; g_info.t2 = g_tid; g_info.w1 = owr; g_info.w2 = wr; g_info.pc1 = opc; g_info.pc2 = pc;
}
Cell* find(uintptr_t key, bool* fresh) {
  size_t h = hsh(key);
  for (;;) {
    Cell& c = T[h];
    if (c.epoch != g_epoch) {
      if (g_used > NC * 3 / 4) { g_info.overflow = true; return nullptr; }
      g_used++; c = Cell{key, g_epoch, -1, -1, 1, 1, 0, nullptr, nullptr}; *fresh = true; return &c;
    }
    if (c.key == key) return &c;
    h = (h + 1) & (NC - 1);
  }
}
void touch(Cell& c, uintptr_t addr, bool wr, bool locked, const void* pc) {
  if (c.w != -1 && c.w != g_tid && !(locked && c.wl)) report(addr, c.w, wr, true, pc, c.wpc);
  if (wr) {
    if (c.r != -1 && c.r != g_tid && !(locked && c.rl)) report(addr, c.r, wr, false, pc, c.rpc);
    c.w = g_tid; c.wl &= locked; c.wpc = pc;
  } else {
    if (c.r == -1) c.r = g_tid; else if (c.r != g_tid) c.r = -2;
    c.rl &= locked; c.rpc = pc;
  }
}
// one cell per 4-byte word; a word that sees a narrower access is split into four byte cells
void access(uintptr_t a, size_t n, bool wr, bool atomic, const void* pc) {
  g_info.accesses++;
  if (a >= tls_lo && a < tls_hi) return;
  uintptr_t end = a + n; bool locked = atomic || g_lock > 0;
  for (uintptr_t w = a >> 2; w <= (end - 1) >> 2; w++) {
    uintptr_t lo = w << 2; bool whole = lo >= a && lo + 4 <= end, fresh = false;
    Cell* c = find(w, &fresh);
    if (!c) return;
    if (whole && !c->split) { touch(*c, lo, wr, locked, pc); continue; }
    Cell copy = *c; bool was = c->split; c->split = 1;
    for (int b = 0; b < 4; b++) {
      bool f2 = false; Cell* x = find((lo + b) | (uintptr_t)1 << 63, &f2);
      if (!x) return;
      if (!was) { uintptr_t k = x->key; *x = copy; x->key = k; x->split = 0; }
      if (lo + b >= a && lo + b < end) touch(*x, lo + b, wr, locked, pc);
    }
  }
}
}  // namespace
#define ON (g_tid >= 0 && g_in && g_on)

void race_begin() {
  if (!T) { T = (Cell*)calloc(NC, sizeof(Cell)); dl_iterate_phdr(cb, nullptr); }
  g_info = RaceInfo(); g_on = true;
}
RaceInfo race_end() { g_on = false; return g_info; }

extern "C" {
void shim_hook_region(int b) { g_epoch++; g_used = 0; g_in = b; if (b) g_info.regions++; if (!b) { for (void* p : g_deferred) free(p); g_deferred.clear(); } }
void shim_hook_phase(void) { g_epoch++; g_used = 0; }
void shim_hook_thread(int t) { g_tid = t; }
void shim_hook_lock(int d) { g_lock += d; }
void __real_free(void*);
void __wrap_free(void* p) { if (ON && p) g_deferred.push_back(p); else __real_free(p); }

#define PC __builtin_return_address(0)
#define RW(n) \
  void __tsan_read##n(void* p) { if (ON) access((uintptr_t)p, n, false, false, PC); } \
  void __tsan_write##n(void* p) { if (ON) access((uintptr_t)p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* p) { if (ON) access((uintptr_t)p, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { if (ON) access((uintptr_t)p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* p) { if (ON) access((uintptr_t)p, n, false, false, PC); } \
  void __tsan_volatile_write##n(void* p) { if (ON) access((uintptr_t)p, n, true, false, PC); } \
  void __tsan_read_write##n(void* p) { if (ON) access((uintptr_t)p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { if (ON && n > 0) access((uintptr_t)p, n, false, false, PC); }
void __tsan_write_range(void* p, long n) { if (ON && n > 0) access((uintptr_t)p, n, true, false, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** p, void*) { if (ON) access((uintptr_t)p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { if (ON) access((uintptr_t)p, 8, false, false, PC); }
#define AT(bits, T_) \
  T_ __tsan_atomic##bits##_load(const volatile T_* a, int) { if (ON) access((uintptr_t)a, sizeof(T_), false, true, PC); return *a; } \
  void __tsan_atomic##bits##_store(volatile T_* a, T_ v, int) { if (ON) access((uintptr_t)a, sizeof(T_), true, true, PC); *a = v; } \
  T_ __tsan_atomic##bits##_exchange(volatile T_* a, T_ v, int) { if (ON) access((uintptr_t)a, sizeof(T_), true, true, PC); T_ o = *a; *a = v; return o; } \
  T_ __tsan_atomic##bits##_fetch_add(volatile T_* a, T_ v, int) { if (ON) access((uintptr_t)a, sizeof(T_), true, true, PC); T_ o = *a; *a = o + v; return o; } \
  T_ __tsan_atomic##bits##_fetch_sub(volatile T_* a, T_ v, int) { if (ON) access((uintptr_t)a, sizeof(T_), true, true, PC); T_ o = *a; *a = o - v; return o; } \
  T_ __tsan_atomic##bits##_fetch_and(volatile T_* a, T_ v, int) { if (ON) access((uintptr_t)a, sizeof(T_), true, true, PC); T_ o = *a; *a = o & v; return o; } \
  T_ __tsan_atomic##bits##_fetch_or(volatile T_* a, T_ v, int) { if (ON) access((uintptr_t)a, sizeof(T_), true, true, PC); T_ o = *a; *a = o | v; return o; } \
  T_ __tsan_atomic##bits##_fetch_xor(volatile T_* a, T_ v, int) { if (ON) access((uintptr_t)a, sizeof(T_), true, true, PC); T_ o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* a, T_* c, T_ v, int, int) { if (ON) access((uintptr_t)a, sizeof(T_), true, true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* a, T_* c, T_ v, int, int) { if (ON) access((uintptr_t)a, sizeof(T_), true, true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* a, T_ c, T_ v, int, int) { if (ON) access((uintptr_t)a, sizeof(T_), true, true, PC); T_ o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// libc block operations the library may call
void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (ON && n) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return __real_memcpy(d, s, n); }
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) { if (ON && n) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return __real_memmove(d, s, n); }
void* __real_memset(void*, int, size_t);
void* __wrap_memset(void* d, int v, size_t n) { if (ON && n) access((uintptr_t)d, n, true, false, PC); return __real_memset(d, v, n); }
}
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
