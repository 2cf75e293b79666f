// Built three times: TRACE (race detector over every load and store), ORDERS (result bits
// under generated execution orders and team sizes), REAL (the system's libgomp).
#include "job.h"
#ifdef TRACE
#include "race.h"
#endif
#ifdef REAL
extern "C" { void shim_configure(int, uint64_t, int) {} void shim_reset(void) {} int shim_max_team(void) { return 0; } uint64_t shim_regions(void) { return 1; } }
#endif

#ifdef TRACE
static void races(Case& c) {
  Job j = gen(c, c.chance(92) ? 6e4 : 4e5, 260, 10);
  int order = c.range(0, 3); uint32_t s = c.seed();
  shim_reset(); shim_configure(order, s, 0);
  race_begin();
  exec(j);
  RaceInfo r = race_end();
  if (r.overflow) c.label("shadow table full");
  c.label(shim_max_team() > 1 ? "team formed" : "no team formed");
  if (r.found) c.fail("data race", "thread %d %s and thread %d %s the same location %p in one parallel region without synchronisation (code at %p and %p)",
    r.t1, r.w1 ? "writes" : "reads", r.t2, r.w2 ? "writes" : "reads", (void*)r.addr, r.pc1, r.pc2);
}
#else
static void diff(Case& c, const Job& j, const std::vector<float>& want, const std::vector<float>& got, const char* what) {
  for (size_t i = 0; i < want.size(); i++) if (fbits(want[i]) != fbits(got[i]))
    c.fail("result depends on thread scheduling", "%s: %s: value %zu of %zu is %.9g instead of %.9g", KIND[j.kind], what, i, want.size(), got[i], want[i]);
}
#ifdef REAL
static void real(Case& c) {
  Job j = gen(c, c.chance(85) ? 2e6 : 3e7, 700, 8);
  int reps = c.range(1, 4) * c.reps;
  omp_set_dynamic(0);
  Job one = j; std::vector<float> want;
  if (j.kind == 0) {              // exact reference
    std::vector<float> R((size_t)j.q.M * j.q.N); ref_gemm(j.in1.data(), j.in2.data(), R.data(), j.q.M, j.q.N, j.q.K);
    for (auto& v : R) v = j.q.alpha * v + j.q.beta * 3.f;
    for (int k = 0; k < reps; k++) { auto g = exec(j); for (size_t i = 0; i < R.size(); i++) if (!(g[i] == R[i])) c.fail("wrong result on real threads", "run %d: element (%zu,%zu) is %.9g instead of %.9g", k, i / j.q.N, i % j.q.N, g[i], R[i]); }
  } else {
    want = exec(j);
    for (int k = 0; k < reps; k++) diff(c, j, want, exec(j), "repeated run");
  }
}
#else
static void orders(Case& c) {
  Job j = gen(c, c.chance(85) ? 2e5 : 2e6, 400, 12);
  // arbitrary (not exactly summable) values: the order of additions must not change either
  if (j.kind == 0) { uint32_t s = c.seed(); Rng r{s + 5ull}; for (auto& v : j.in1) v = r.range(-100000, 100000) * 1.1e-5f; for (auto& v : j.in2) v = r.range(-100000, 100000) * 1.3e-5f; }
  shim_reset(); shim_configure(0, 0, 0);
  std::vector<float> want = exec(j);
  int n = c.range(1, 4);
  for (int k = 0; k < n; k++) {
    int order = c.range(0, 3), limit = c.chance(50) ? c.range(1, std::max(1, j.p)) : 0; uint32_t s = c.seed();
    c.describe("[order %d team limit %d seed %u] ", order, limit, s);
    shim_reset(); shim_configure(order, s, limit);
    if (limit && limit < j.p) c.label("fewer threads than requested");
    diff(c, j, want, exec(j), "different order or team size");
  }
}
#endif
#endif

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C05";
#ifdef TRACE
  cfg.rule = "(trace) a case is one library call with every load and store recorded and checked for conflicting unsynchronised accesses; non-trivial = several blocks with a ragged edge and p>1";
#ifdef O0
  cfg.arms = {{"races", races, 20000, 300000}};
#else
  cfg.arms = {{"races", races, 50000, 600000}};
#endif
#elif defined(REAL)
  cfg.rule = "(libgomp) a case is one call repeated on real threads and compared with the exact product or the first run; non-trivial as above";
  cfg.arms = {{"real", real, 15000, 200000}};
#else
  cfg.rule = "(orders) a case is one call executed in ascending order with a full team and then again under generated orders and team sizes, compared bit for bit; non-trivial = several blocks with a ragged edge and p>1";
  cfg.arms = {{"orders", orders, 150000, 2000000}};
#endif
  return pbt::main_impl(argc, argv, cfg);
}
