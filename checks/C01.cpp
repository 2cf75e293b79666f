#include "cakegen.h"

static void gemm(Case& c, bool any_order) {
  Limits l = gen_limits(c); l.hugep = true;
  Prob q = gen_prob(c, E_1D, l, false, 0);
  uint32_t sa = c.seed();
  int off = c.range(0, 15), order = any_order ? c.range(0, 2) : 0;
  describe(c, q); c.describe("data seed %u", sa);
  blk_dims_t x = plan_of(q);
  c.nontrivial(classify(c, q, x));
  c.label("sched asked=%s", SCHED[q.sch]);
  // the inputs are read only, so they may share memory
  bool shared = c.chance(5); size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, sh = shared && c.coin() ? c.range(0, (int)std::min<size_t>(mk, 4000)) : 0;
  if (shared) { c.label("A and B overlap"); c.describe(" B overlaps A at +%zu", sh); }
  Buf A(shared ? std::max(mk, sh + kn) : mk, off), B_(shared ? 0 : kn, off / 2), C((size_t)q.M * q.N, 15 - off), R((size_t)q.M * q.N);
  struct { float* q; float* p() { return q; } } B = {shared ? A.p() + sh : B_.p()};
  fill_int(A.p(), A.n, sa); if (!shared) fill_int(B_.p(), B_.n, sa ? sa + 1 : 0);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  shim_reset(); shim_configure(order, sa, 0);
  call(q, &ctx, A.p(), B.p(), C.p());           // C starts as NaN: every element must be written
  ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
  expect_equal(c, C.p(), R.p(), q.M, q.N, "C");
}
static void main_arm(Case& c) { gemm(c, true); }

// the sizes users actually have: whole machine descriptions, larger matrices, default context
static void machine_arm(Case& c) {
  Prob q; q.e = E_1D;
  static const Hw machines[] = {
    {32 << 10, 256 << 10, 8 << 20, 4, MR_MIN, NR_MIN}, {32 << 10, 1 << 20, 8 << 20, 4, MR_MIN, NR_MIN}, {32 << 10, 512 << 10, 64 << 20, 16, MR_MIN, NR_MIN},
    {32 << 10, 1 << 20, 36608 << 10, 24, MR_MIN, NR_MIN}, {48 << 10, 1280 << 10, 12 << 20, 6, MR_MIN, NR_MIN}, {32 << 10, 32 << 10, 1 << 20, 4, MR_MIN, NR_MIN},
    {32 << 10, 256 << 10, 20 << 20, 10, MR_MIN, NR_MIN}, {32 << 10, 512 << 10, 128 << 20, 64, MR_MIN, NR_MIN}, {16 << 10, 16 << 10, 512 << 10, 4, MR_MIN, NR_MIN}};
  q.hw = machines[c.range(0, 8)];
  q.p = c.range(1, std::min(24, std::max(2, q.hw.ncores)));
  q.sch = c.pick({NA, KMN, MKN, NKM});
  int shape = c.range(0, 5);
  int big = c.logrange(300, 2400), mid = c.logrange(40, 500), small = c.range(1, 60);
  q.M = shape == 0 ? big : shape == 1 ? small : shape == 2 ? mid : shape == 3 ? big : shape == 4 ? mid : small;
  q.N = shape == 0 ? mid : shape == 1 ? big : shape == 2 ? big : shape == 3 ? small : shape == 4 ? mid : small;
  q.K = shape == 0 ? small : shape == 1 ? mid : shape == 2 ? mid : shape == 3 ? mid : shape == 4 ? mid : big;
  clamp_flops(q, 2.5e8);
  uint32_t sa = c.seed();
  describe(c, q);
  c.nontrivial(classify(c, q, plan_of(q)));
  Buf A((size_t)q.M * q.K), B((size_t)q.K * q.N), C((size_t)q.M * q.N), R((size_t)q.M * q.N);
  fill_int(A.p(), A.n, sa); fill_int(B.p(), B.n, sa ? sa + 1 : 0);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  shim_reset(); shim_configure(0, sa, 0);
  call(q, &ctx, A.p(), B.p(), C.p());
  ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
  expect_equal(c, C.p(), R.p(), q.M, q.N, "C");
}

// one very long dimension
static void long_arm(Case& c) { check_long(c, gen_long(c, E_1D, 8)); }

// operands of several gigabytes
static void big_arm(Case& c) { check_big(c, E_1D, 8); }

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C01";
  cfg.rule = "a case is one cake_sgemm call on small-integer matrices compared element-exactly with a triple loop, C pre-filled with NaN; non-trivial = more than one block in some dimension, a ragged edge or partial last block, and p>1 (p>1 for the arm with one dimension in the millions); distinct by choice sequence";
  cfg.arms = {{"gemm", main_arm, 120000, 1500000}, {"machines", machine_arm, 6000, 80000}, {"long", long_arm, 60, 1500}, {"big", big_arm, 2, 24}};
  return pbt::main_impl(argc, argv, cfg);
}
