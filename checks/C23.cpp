// grid_dims_2d against the definition of the grid, for libraries configured for many core counts.
#include "cakegen.h"
#include <dlfcn.h>

typedef int (*Grid)(int, int, int, int, int);
typedef void (*Plan)(int, int, int, int, blk_dims_t*, cake_cntx_t*, enum sched, char**, float, int, int, int);
typedef void (*PlanSmall)(int, int, int, int, blk_dims_t*, cake_cntx_t*, enum sched, char**, float);
struct Lib { int n; std::string what; Grid f; Plan plan; PlanSmall small; };
static std::vector<Lib> libs; static int quick_libs;
static void init() { libs.clear(); quick_libs = 0;
  FILE* f = fopen(getenv("GRID_LIBS"), "r"); char so[600], what[200]; int n, q;
  while (fscanf(f, "%d %d %199s %599s", &n, &q, what, so) == 4) {
    void* h = dlopen(so, RTLD_LAZY | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
    Grid g = (Grid)dlsym(h, "_Z12grid_dims_2diiiii"); if (!g) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
    Plan pl = (Plan)dlsym(h, "_Z18init_block_dims_2diiiiP10blk_dims_tP11cake_cntx_t5schedPPcfiii"); PlanSmall ps = (PlanSmall)dlsym(h, "_Z24init_block_dims_2d_smalliiiiP10blk_dims_tP11cake_cntx_t5schedPPcf");
    if (!pl || !ps) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
    libs.push_back({n, what, g, pl, ps}); quick_libs += q;
  }
  fclose(f);
}

static void expect(Case& c, const Lib& L, int M, int N, int K, int p, int nc = 0) {
  if (!nc) nc = L.n;
  int pn = L.f(M, N, K, p, nc);
  double o = sqrt((double)p * N / M);
  if (pn < 1 || pn > p) c.fail("grid", "%d cores, p=%d, M=%d N=%d K=%d: pn=%d", L.n, p, M, N, K, pn);
  if (p % pn) c.fail("grid", "%d cores, p=%d, M=%d N=%d K=%d: pn=%d does not divide p", L.n, p, M, N, K, pn);
  // the optimum, rounded: two candidates when o is (within float precision) half way
  int lo = (int)floor(o * (1 - 1e-6) + 0.5), hi = (int)floor(o * (1 + 1e-6) + 0.5);
  bool ok = false; int best = 0;
  for (int t = lo; t <= hi; t++) {
    int opt = std::min(std::max(t, 1), p), d = p;
    for (int i = 1; i <= p; i++) if (p % i == 0) d = std::min(d, abs(i - opt));
    if (abs(pn - opt) == d) ok = true;
    best = opt;
  }
  if (!ok) c.fail("grid", "%d cores, p=%d, M=%d N=%d K=%d: pn=%d is not the divisor nearest to %d", L.n, p, M, N, K, pn, best);
  c.nontrivial(p > 1 && best > 1 && best < p && p % best);
  if (p % best) c.label("optimum does not divide p");
  c.label(best == 1 ? "one column" : best == p ? "one row" : "two-dimensional");
}
static const Lib& pick_lib(Case& c) {                         // the draw does not depend on the tier
  int i = c.chance(50) ? c.range(0, quick_libs - 1) : c.range(0, 399);
  if (i >= (int)libs.size()) i %= quick_libs;
  return libs[i];
}
static long dim(Case& c) { return c.coin() ? c.logrange(1, 1L << 30) : c.range(1, 500); }

static void chosen(Case& c) {
  const Lib& L = pick_lib(c); int p = c.chance(25) ? L.n : c.chance(85) ? c.range(1, L.n) : c.range(1, 2 * L.n + 8), K = dim(c), M, N;
  if (c.chance(60)) {                                         // aim at an optimum between 1 and p
    double o = c.chance(30) ? c.range(1, p) + 0.5 : c.range(1, 2 * p + 1) / 2.0 + c.range(-50, 50) / 100.0; if (o < 0.05) o = 0.05;
    M = c.logrange(1, 1 << 20); N = (int)std::max(1.0, std::min(1e9, o * o * M / p + c.range(-1, 1)));
  } else { M = dim(c); N = dim(c); }
  int nc = c.chance(12) ? c.range(1, 2 * L.n) : L.n;          // the machine of the context may not be the one of the build
  c.describe("library for %d cores (%s), context of %d cores, p=%d M=%d N=%d K=%d", L.n, L.what.c_str(), nc, p, M, N, K);
  if (p > nc) c.label("more threads than cores"); if (nc != L.n) c.label("context of another machine");
  int a = L.f(M, N, K, p, nc);
  expect(c, L, M, N, K, p, nc);
  if (c.coin()) { int n = c.range(1, 5); while (n--) { int p2 = c.range(1, L.n + 3); L.f(dim(c), dim(c), dim(c), p2, L.n); } }
  if (L.f(M, N, K, p, nc) != a) c.fail("grid", "the choice changed from %d for the same arguments", a);
}
// every p and every reachable optimum for one library
static void all(Case& c) {
  const Lib& L = pick_lib(c); int p = c.chance(90) ? c.range(1, L.n) : c.range(L.n + 1, 2 * L.n + 8);
  c.describe("library for %d cores (%s), p=%d, every optimum", L.n, L.what.c_str(), p);
  for (int o = 0; o <= p + 2; o++) { int M = 1000000; double n = (double)o * o * M / p; if (n < 1) n = 1; expect(c, L, M, (int)n, 100, p); }
}
// the planners lay their blocks on the chosen grid, and leave rows or columns of it out only when there are no more tiles than rows or columns
static void planned(Case& c) {
  const Lib& L = pick_lib(c); int p = c.chance(40) ? L.n : c.chance(90) ? c.range(1, L.n) : c.range(1, 2 * L.n + 8);
  Hw hw = gen_hw(c, 8, c.coin()); hw.ncores = c.chance(85) ? L.n : c.range(1, 2 * L.n);
  auto d = [&] { return c.chance(60) ? c.logrange(1, 1 << 24) : c.range(1, 3000); };
  int M = d(), N = d(), K = d(); if (c.chance(40)) N = std::max(1, (int)std::min(1.6e7, M * (c.range(1, 40) / 10.0) / c.range(1, 4)));
  bool small = c.chance(30); int mcu = 0, kcu = 0, ncu = 0;
  if (!small && c.chance(35)) { mcu = hw.mr * c.logrange(1, 60); kcu = c.logrange(1, 500); ncu = hw.nr * c.logrange(1, 60); }
  c.describe("library for %d cores (%s), %s planner, context of %d cores, L1=%d L2=%d, register tile %dx%d, p=%d M=%d N=%d K=%d tile %d,%d,%d", L.n, L.what.c_str(), small ? "small" : "2-D", hw.ncores, hw.L1, hw.L2, hw.mr, hw.nr, p, M, N, K, mcu, kcu, ncu);
  cake_cntx_t ctx; set_ctx(&ctx, hw); blk_dims_t x; memset(&x, 0x5A, sizeof x);
  if (small) L.small(M, N, K, p, &x, &ctx, KMN, NULL, 4); else L.plan(M, N, K, p, &x, &ctx, KMN, NULL, 4, mcu, kcu, ncu);
  int pn = L.f(M, N, K, p, hw.ncores), pm = p / pn, tm = (M + hw.mr - 1) / hw.mr, tn = (N + hw.nr - 1) / hw.nr;
  c.label(small ? "small planner" : "2-D planner"); c.nontrivial(pm > 1 && pn > 1); if (tm <= pm || tn <= pn) c.label("fewer tiles than threads in one direction");
  if (x.pm < 1 || x.pn < 1) c.fail("planned grid", "the plan has a %d x %d grid", x.pm, x.pn);
  if (small ? x.pm != pm || x.pn != pn : x.pm > pm || x.pn > pn || (x.pm < pm && tm > pm) || (x.pn < pn && tn > pn))
    c.fail("planned grid", "the plan has a %d x %d grid for %d x %d register tiles, the chosen one is %d x %d", x.pm, x.pn, tm, tn, pm, pn);
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C23"; cfg.init = init;
  cfg.rule = "a case asks the grid chooser of a library configured for one core count for one thread count and shape (or, in 'every optimum', for all optima of one thread count; in 'planned', compares the grid in a 2-D plan with the chosen one); non-trivial = the unconstrained optimum lies strictly between 1 and p and does not divide p";
  cfg.arms = {{"chosen", chosen, 12000000, 150000000}, {"every optimum", all, 500000, 4000000}, {"planned", planned, 3000000, 40000000}};
  return pbt::main_impl(argc, argv, cfg);
}
