#include "cakegen.h"

static void packed(Case& c) {
  Limits l = gen_limits(c); l.flops = std::min(l.flops, 2e7);
  bool te = c.chance(12);
  Prob q = gen_prob(c, te ? E_TEST : E_1D, l, c.chance(30), 0);
  if (te) q.sch = KMN;
  if (c.chance(20)) { q.alpha = c.pick({2.f, -1.f, 0.5f}); q.beta = c.pick({0.f, 1.f, -2.f}); }
  int flags = c.range(1, 3), reps = c.range(1, 3), order = c.range(0, 2);
  bool real = c.coin(); uint32_t s = c.seed();
  describe(c, q); c.describe("packed%s%s x%d calls, %s data seed %u", flags & 1 ? " A" : "", flags & 2 ? " B" : "", reps, real ? "real" : "integer", s);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  blk_dims_t x; memset(&x, 0, sizeof x);
  plan_blocks(q, &x, &ctx, q.sch);
  bool nt = classify(c, q, x);
  c.label("packed flags %d", flags); c.label("calls %d", reps); c.nontrivial(nt);
  size_t mn = (size_t)q.M * q.N;
  Buf A((size_t)q.M * q.K, s & 15), B((size_t)q.K * q.N, (s >> 4) & 15), C(mn), W(mn), O(mn);
  if (real) { Rng r{s + 3ull}; for (size_t i = 0; i < A.n; i++) A[i] = r.range(-1 << 20, 1 << 20) * 1.7e-6f; for (size_t i = 0; i < B.n; i++) B[i] = r.range(-1 << 20, 1 << 20) * 1.3e-6f; }
  else { fill_int(A.p(), A.n, s); fill_int(B.p(), B.n, s ? s + 1 : 0); }
  Rng ro{s + 8ull}; for (size_t i = 0; i < mn; i++) O[i] = (float)ro.range(-5, 5);
  shim_reset(); shim_configure(order, s, 0);
  cake_cntx_t c0; set_ctx(&c0, q.hw);
  memcpy(W.p(), O.p(), mn * 4);
  call(q, &c0, A.p(), B.p(), W.p());                    // plain operands
  ABuf Ap(cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &ctx, x.sch) / 4), Bp(cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, &ctx) / 4);
  if (flags & 1) pack_A(A.p(), Ap.p(), q.M, q.K, q.p, &x, &ctx, x.sch);
  if (flags & 2) pack_B(B.p(), Bp.p(), q.K, q.N, q.p, &x, &ctx, x.sch);
  std::vector<float> sa(Ap.p(), Ap.p() + Ap.n), sb(Bp.p(), Bp.p() + Bp.n);
  for (int k = 0; k < reps; k++) {
    memcpy(C.p(), O.p(), mn * 4);
    float *a = flags & 1 ? Ap.p() : A.p(), *b = flags & 2 ? Bp.p() : B.p();
    if (te) cake_sgemm_test(a, b, C.p(), q.M, q.N, q.K, q.p, &ctx, NULL, flags & 1, (flags & 2) != 0, q.alpha, q.beta, q.sch);
    else call(q, &ctx, a, b, C.p(), flags & 1, (flags & 2) != 0);
    for (size_t i = 0; i < mn; i++) if (fbits(C[i]) != fbits(W[i])) c.fail("packed result differs", "call %d: element (%zu,%zu) is %.9g with packed operands, %.9g with plain ones", k + 1, i / q.N, i % q.N, C[i], W[i]);
    if (memcmp(sa.data(), Ap.p(), Ap.n * 4) || memcmp(sb.data(), Bp.p(), Bp.n * 4)) c.fail("packed buffer modified", "after call %d", k + 1);
    if (!Ap.guards_ok() || !Bp.guards_ok() || !C.guards_ok()) c.fail("wrote outside a buffer", "guard words changed");
  }
}

// several products with one packed operand (weights reused over inputs)
static void reuse(Case& c) {
  Limits l; l.flops = 4e5; l.dim = 300; l.maxp = 8;
  Prob q = gen_prob(c, E_1D, l, c.chance(30), 0);
  bool side = c.coin(); int n = c.range(2, 4); uint32_t s = c.seed();
  describe(c, q); c.describe("one packed %s, %d partners, seed %u", side ? "A" : "B", n, s);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  blk_dims_t x; memset(&x, 0, sizeof x);
  plan_blocks(q, &x, &ctx, q.sch);
  c.nontrivial(classify(c, q, x));
  size_t mn = (size_t)q.M * q.N;
  Buf A((size_t)q.M * q.K), B((size_t)q.K * q.N), C(mn), R(mn);
  ABuf P(side ? cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &ctx, x.sch) / 4 : cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, &ctx) / 4);
  shim_reset(); shim_configure(s % 3, s, 0);
  fill_int(A.p(), A.n, s); fill_int(B.p(), B.n, s + 1);
  if (side) pack_A(A.p(), P.p(), q.M, q.K, q.p, &x, &ctx, x.sch); else pack_B(B.p(), P.p(), q.K, q.N, q.p, &x, &ctx, x.sch);
  for (int k = 0; k < n; k++) {
    fill_int(side ? B.p() : A.p(), side ? B.n : A.n, s + 10 + k);      // same address, new contents
    Buf D(mn);
    call(q, &ctx, side ? P.p() : A.p(), side ? B.p() : P.p(), D.p(), side, !side);
    ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
    expect_equal(c, D.p(), R.p(), q.M, q.N, "product with a reused packed operand");
  }
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C07";
  cfg.rule = "a case packs A and/or B with the library's packing entry points into buffers of the advertised size (guarded) and compares every call on them bit for bit with the call on plain operands; non-trivial = several blocks with a ragged edge and p>1";
  cfg.arms = {{"packed", packed, 90000, 1000000}, {"reuse", reuse, 30000, 300000}};
  return pbt::main_impl(argc, argv, cfg);
}
