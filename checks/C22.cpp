// Reported times under a simulated clock that moves only when the code under test does something.
#include "cakegen.h"
#include <sys/syscall.h>
#include <sys/time.h>

static bool sim = false; static __int128 clk = 0;             // nanoseconds
static long d_kernel, d_region, d_read; static __int128 first_k, last_k, first_r, last_r; static long kernels, regions;
static __int128 clk0 = 0, mono0 = 0; static long cpu_num = 1, cpu_den = 1; static long coarse = 0;   // where the other clocks stand, how fast CPU time runs
static __int128 cpu_clk() { return 12345678 + (clk - clk0) * cpu_num / cpu_den; }
extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) {
  if (!sim) return (int)syscall(SYS_clock_gettime, id, t);
  clk += d_read; __int128 v = clk;
  switch (id) {
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: v = mono0 + (clk - clk0); break;
    case CLOCK_BOOTTIME: v = mono0 + 7777777777 + (clk - clk0); break;
    case CLOCK_MONOTONIC_COARSE: v = mono0 + (clk - clk0); v -= v % 4000000; break;
    case CLOCK_REALTIME_COARSE: v -= v % 4000000; break;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: v = cpu_clk(); break;
  }
  t->tv_sec = (time_t)(v / 1000000000); t->tv_nsec = (long)(v % 1000000000); return 0;
}
clock_t clock() { if (sim) clk += d_read; return (clock_t)(cpu_clk() / 1000); }
int gettimeofday(struct timeval* tv, void*) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; coarse++; return 0;
}
time_t time(time_t* o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
void shim_hook_region(int begin) { if (!sim) return; if (begin && first_r < 0) first_r = clk; regions += begin; clk += d_region; last_r = clk; }
}
#define WRAP2(f) __wrap_##f
#define REAL2(f) __real_##f
void __real_kernel(float*, float*, float*, int, int, int) asm("__real__Z23cake_sgemm_haswell_6x16PfS_S_iii");
void __wrap_kernel(float* A, float* B, float* C, int m, int n, int k) asm("__wrap__Z23cake_sgemm_haswell_6x16PfS_S_iii");
void __wrap_kernel(float* A, float* B, float* C, int m, int n, int k) {
  if (sim) { if (first_k < 0) first_k = clk; kernels++; clk += d_kernel; last_k = clk; }
  __real_kernel(A, B, C, m, n, k);
}

static long step(Case& c) { switch (c.range(0, 4)) { case 0: return 0; case 1: return c.range(1, 1000); case 2: return c.logrange(1, 1000000000); case 3: return 999999999 - c.range(0, 5); default: return 1000000000L * c.range(1, 50) + c.range(0, 999999999); } }

static void timing(Case& c) {
  static const Entry es[] = {E_1D, E_1D, E_1D, E_1D, E_ONLINE, E_2D, E_2DS, E_TEST};
  Limits l; l.flops = c.chance(10) ? 3e6 : 2e5; l.dim = 300; l.maxp = 8; l.wide = 2e7;
  bool pack = c.chance(15); Prob q = gen_prob(c, pack ? E_1D : es[c.range(0, 7)], l, false, TREE_NCORES); if (pack && q.sch == NA) q.sch = KMN;
  if (!pack && c.chance(20)) { q.alpha = 2; q.beta = c.pick({0.f, 1.f}); }
  d_kernel = step(c); d_region = step(c); d_read = c.pick({0L, 0L, 1L, 17L}) * (long)c.range(1, 50);
  long sec = c.pick({0L, 1L, 1700000000L, 4102444799L}), ns = c.pick({0L, 1L, 999999999L, 999999000L, 500000000L}); if (c.coin()) ns = (long)c.range(0, 999999999);
  __int128 mdelta = (__int128)c.pick({0, 1, 86400, 3000000}) * 1000000000 + c.range(0, 999999999); cpu_num = c.pick({0, 1, 3, q.p}); cpu_den = c.pick({1, 2, 8});
  describe(c, q); c.describe("%sclock starts at %ld.%09ld, kernel %ld ns, region %ld ns, reading %ld ns", pack ? "pack_A, " : "", sec, ns, d_kernel, d_region, d_read);
  blk_dims_t x = plan_of(q); classify(c, q, x);
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N; Buf A(mk), B(kn), C(mn); fill_int(A.p(), mk, 1); fill_int(B.p(), kn, 2); for (size_t i = 0; i < mn; i++) C[i] = 0;
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); shim_reset(); shim_configure(c.range(0, 2), 1, 0); omp_set_num_threads(q.p);
  std::unique_ptr<ABuf> P; if (pack) P.reset(new ABuf(cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &ctx, x.sch) / 4));
  clk = clk0 = (__int128)sec * 1000000000 + ns; mono0 = mdelta; coarse = 0; __int128 t0 = clk; first_k = last_k = first_r = last_r = -1; kernels = regions = 0;
  sim = true; double t = pack ? pack_A(A.p(), P->p(), q.M, q.K, q.p, &x, &ctx, x.sch) : call(q, &ctx, A.p(), B.p(), C.p()); __int128 t1 = clk; sim = false;
  double total = (double)(t1 - t0) * 1e-9, mult = kernels ? (double)(last_k - first_k) * 1e-9 : 0, reg = regions ? (double)(last_r - first_r) * 1e-9 : 0, tol = 4e-9 + total * 1e-12 + coarse * 1e-6 + (double)(sec > mdelta / 1000000000 ? sec : (long)(mdelta / 1000000000)) * 1e-15;   // gettimeofday() counts microseconds; seconds kept in a double round
  // the schedule region that ran the kernels is part of the multiplication too
  bool whole = pack || q.e == E_1D;                           // these report the whole call
  c.label(sec + 1 <= (long)(t1 / 1000000000) ? "seconds roll over" : "within one second"); if (pack) c.label("pack_A"); c.label(total >= 1 ? "1 s or more" : total > 0 ? "below 1 s" : "no time passes");
  c.nontrivial(total > 0 && (kernels > 1 || pack));
  if (!(t >= 0)) c.fail("negative time", "reported %.12g s", t);
  if (t > total + tol) c.fail("time too long", "reported %.12g s, the call took %.12g s", t, total);
  if (t < mult - tol) c.fail("time too short", "reported %.12g s, the multiplication took %.12g s (%ld kernel calls)", t, mult, kernels);
  if (whole && t < reg - tol) c.fail("time too short", "reported %.12g s, packing to the end of the multiplication took %.12g s (%ld parallel regions)", t, reg, regions);
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C22";
  cfg.rule = "a case runs one timed call under a simulated clock advanced by generated amounts at every kernel call, parallel region and clock reading, and compares the reported time with the simulated duration; non-trivial = time passes and more than one kernel (or a packing) runs";
  cfg.arms = {{"timing", timing, 800000, 12000000}};
  return pbt::main_impl(argc, argv, cfg);
}
