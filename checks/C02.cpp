#include "cakegen.h"
#ifndef TREE_NCORES
#define TREE_NCORES 24
#endif

static void run(Case& c, Entry e) {
  Limits l = gen_limits(c);
  Prob q = gen_prob(c, e, l, false, TREE_NCORES);
  uint32_t sa = c.seed();
  int off = c.range(0, 15), order = c.range(0, 2);
  describe(c, q); c.describe("data seed %u", sa);
  c.nontrivial(classify(c, q, plan_of(q)));
  // the inputs are read only, so they may share memory
  bool shared = c.chance(5); size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, sh = shared && c.coin() ? c.range(0, (int)std::min<size_t>(mk, 4000)) : 0;
  if (shared) { c.label("A and B overlap"); c.describe(" B overlaps A at +%zu", sh); }
  Buf A(shared ? std::max(mk, sh + kn) : mk, off), B_(shared ? 0 : kn, off / 2), C((size_t)q.M * q.N, 15 - off), R((size_t)q.M * q.N);
  struct { float* q; float* p() { return q; } } B = {shared ? A.p() + sh : B_.p()};
  fill_int(A.p(), A.n, sa); if (!shared) fill_int(B_.p(), B_.n, sa ? sa + 1 : 0);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  shim_reset(); shim_configure(order, sa, 0);
  call(q, &ctx, A.p(), B.p(), C.p());
  ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
  expect_equal(c, C.p(), R.p(), q.M, q.N, "C");
  if (!C.guards_ok()) c.fail("wrote outside C", "guard words around C changed");
}
static void online(Case& c) { run(c, E_ONLINE); }
static void testentry(Case& c) { run(c, E_TEST); }
static void grid(Case& c) { run(c, E_2D); }
static void grid_small(Case& c) { run(c, E_2DS); }

// what a user's machine looks like: default-size caches, larger matrices
static void machine(Case& c) {
  Prob q; q.e = c.coin() ? E_2D : E_ONLINE;
  q.hw.L1 = c.pick({32, 48, 16}) << 10; q.hw.L2 = c.pick({256, 512, 1024, 32}) << 10; q.hw.L3 = c.pick({1, 8, 20, 64}) << 20; q.hw.ncores = TREE_NCORES;
  q.p = c.range(1, TREE_NCORES);
  q.M = c.coin() ? c.logrange(1, 2400) : c.range(1, 300); q.N = c.coin() ? c.logrange(1, 2400) : c.range(1, 300); q.K = c.coin() ? c.logrange(1, 1500) : c.range(1, 300);
  clamp_flops(q, 2e8);
  uint32_t sa = c.seed();
  describe(c, q);
  c.nontrivial(classify(c, q, plan_of(q)));
  Buf A((size_t)q.M * q.K), B((size_t)q.K * q.N), C((size_t)q.M * q.N), R((size_t)q.M * q.N);
  fill_int(A.p(), A.n, sa); fill_int(B.p(), B.n, sa ? sa + 1 : 0);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  shim_reset(); shim_configure(0, sa, 0);
  call(q, &ctx, A.p(), B.p(), C.p());
  ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
  expect_equal(c, C.p(), R.p(), q.M, q.N, "C");
}

// one very long dimension
static void long_arm(Case& c) { check_long(c, gen_long(c, c.pick({E_ONLINE, E_2D, E_2DS, E_2DS, E_TEST}), TREE_NCORES)); }

// operands of several gigabytes
static void big_arm(Case& c) { check_big(c, c.pick({E_ONLINE, E_2D, E_2DS}), TREE_NCORES); }

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C02";
  cfg.rule = "a case is one call of an online / 2-D grid entry point on small-integer matrices compared element-exactly with a triple loop, C pre-filled with NaN and guarded; non-trivial = more than one block in some dimension, a ragged edge or partial last block, and p>1 (p>1 for the arm with one dimension in the millions)";
  cfg.arms = {{"online", online, 45000, 600000}, {"grid", grid, 45000, 600000}, {"grid-small", grid_small, 25000, 300000}, {"test-entry", testentry, 15000, 150000}, {"machines", machine, 2500, 40000}, {"long", long_arm, 80, 2000}, {"big", big_arm, 3, 30}};
  return pbt::main_impl(argc, argv, cfg);
}
