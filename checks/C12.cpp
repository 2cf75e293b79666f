// The ARMv8 configuration, compiled against emulated NEON intrinsics.
#include "cakegen.h"
#ifdef USE_CAKE_ARMV8
#define BUILD "ARMv8 build"
#else
#define BUILD "BLIS packing build"
#endif

static void gemm(Case& c) {
  static const Entry es[] = {E_1D, E_1D, E_1D, E_1D, E_ONLINE, E_ONLINE, E_2D, E_2D, E_2DS, E_TEST};
  Limits l = gen_limits(c);
#ifdef DEFAULT_TILE_ONLY
  bool any = false;
#else
  bool any = c.chance(50);
#endif
  Prob q = gen_prob(c, es[c.range(0, 9)], l, any, TREE_NCORES);
  if (c.chance(25)) { q.alpha = c.pick({2.f, -1.f, 0.5f}); q.beta = c.pick({0.f, 1.f, -3.f}); }
  uint32_t s = c.seed(); int order = c.range(0, 3), oa = c.range(0, 15), ob = c.range(0, 15);
  describe(c, q); c.describe("order %d seed %u", order, s);
  c.label("tile %dx%d", q.hw.mr, q.hw.nr);
  c.nontrivial(classify(c, q, plan_of(q)));
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N;
  Buf A(mk, oa), B(kn, ob), C(mn, s & 15), R(mn);
  fill_int(A.p(), mk, s); fill_int(B.p(), kn, s ? s + 1 : 0);
  std::vector<float> a(A.p(), A.p() + mk), b(B.p(), B.p() + kn), o(mn);
  Rng r{s + 5ull}; for (size_t i = 0; i < mn; i++) C[i] = o[i] = q.beta == 0 && (s & 1) ? NAN : (float)r.range(-9, 9);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  shim_reset(); shim_configure(order, s, 0);
  call(q, &ctx, A.p(), B.p(), C.p());
  ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
  if (q.alpha != 1 || q.beta != 0) for (size_t i = 0; i < mn; i++) R[i] = q.alpha * R[i] + (q.beta == 0 ? 0 : q.beta * o[i]);
  expect_equal(c, C.p(), R.p(), q.M, q.N, BUILD);
  if (!same_bits(a.data(), A.p(), mk) || !same_bits(b.data(), B.p(), kn)) c.fail("operand modified", "A or B changed");
  if (!A.guards_ok() || !B.guards_ok() || !C.guards_ok()) c.fail("wrote outside a matrix", "guard words changed");
}

#ifndef DEFAULT_TILE_ONLY
static void packed(Case& c) {
  Limits l; l.flops = 8e5; l.dim = 400; l.maxp = 8;
  Prob q = gen_prob(c, E_1D, l, c.chance(40), 0);
  int flags = c.range(1, 3); uint32_t s = c.seed();
  describe(c, q); c.describe("packed %d seed %u", flags, s);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  blk_dims_t x; memset(&x, 0, sizeof x); plan_blocks(q, &x, &ctx, q.sch);
  c.nontrivial(classify(c, q, x));
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N;
  Buf A(mk), B(kn), C(mn), R(mn); fill_int(A.p(), mk, s); fill_int(B.p(), kn, s ? s + 1 : 0);
  ABuf Ap(cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &ctx, x.sch) / 4), Bp(cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, &ctx) / 4);
  shim_reset(); shim_configure(s % 3, s, 0);
  if (flags & 1) pack_A(A.p(), Ap.p(), q.M, q.K, q.p, &x, &ctx, x.sch);
  if (flags & 2) pack_B(B.p(), Bp.p(), q.K, q.N, q.p, &x, &ctx, x.sch);
  call(q, &ctx, flags & 1 ? Ap.p() : A.p(), flags & 2 ? Bp.p() : B.p(), C.p(), flags & 1, (flags & 2) != 0);
  ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
  expect_equal(c, C.p(), R.p(), q.M, q.N, BUILD ", packed operands");
  if (!Ap.guards_ok() || !Bp.guards_ok() || !C.guards_ok()) c.fail("wrote outside a buffer", "guard words changed");
}
static void query(Case& c) {
  int mi = c.range(0, table_mrs() - 1), ni = c.range(0, table_nrs() - 1), n = c.range(1, 4);
  c.describe("tile entry %d,%d after %d changes", mi, ni, n); c.nontrivial(true);
  cake_cntx_t ctx; Hw h; set_ctx(&ctx, h);
  for (int i = 0; i < n; i++) update_mr_nr(&ctx, MR_MIN + MR_FACT * c.range(0, table_mrs() - 1), NR_MIN + NR_FACT * c.range(0, table_nrs() - 1));
  update_mr_nr(&ctx, MR_MIN + MR_FACT * mi, NR_MIN + NR_FACT * ni);
  if (ctx.m_map != mi || ctx.n_map != ni) c.fail("kernel index", "[%d][%d], expected [%d][%d]", ctx.m_map, ctx.n_map, mi, ni);
}
#endif

int main(int argc, char** argv) {
  pbt::Config cfg;
#ifdef USE_CAKE_ARMV8
  cfg.property = "C12";
  cfg.rule = "a case is one multiplication by the library compiled for ARMv8 on emulated NEON intrinsics, through any entry point, schedule and register tile, against an exact reference; non-trivial = several blocks with a ragged edge and p>1";
#else
  cfg.property = "C15";
  cfg.rule = "a case is one multiplication by the library configured for the BLIS pack kernels, through any entry point and schedule, against an exact reference; non-trivial = several blocks with a ragged edge and p>1";
#endif
#ifdef DEFAULT_TILE_ONLY
  cfg.arms = {{"gemm-blis-pack", gemm, 25000, 300000}};
#else
  cfg.arms = {{"gemm", gemm, 70000, 900000}, {"packed", packed, 25000, 300000}, {"query", query, 2000, 2000}};
#endif
  return pbt::main_impl(argc, argv, cfg);
}
