// The schedule that is planned and executed.
#include "cakegen.h"

// the chooser's rule in double precision.  sets near when the inputs are too close to a
// threshold of the rule for single-precision evaluation to be decided here
static enum sched rule(const Prob& q, bool& near) {
  int mr = q.hw.mr, nr = q.hw.nr, p = q.p;
  double b = 2.0 * nr; long mc = (long)((-b + sqrt(b * b + 4 * (q.hw.L2 / 8.0))) / 2); mc -= mc % mr;
  long m3 = (long)sqrt(q.hw.L3 / 8.0 / (q.hw.ncores * (2.0 + q.hw.ncores))); m3 -= m3 % mr;
  near = m3 == 0;                                   // no whole register tile fits in the L3 share: the rule divides 0 by 0
  long mcr = mc;
  if (q.M < p * mr) mcr = mr; else if (q.M < p * mc) { long a = q.M / p; mcr = a < mr ? mr : a + (mr - a % mr); }
  double m = (double)p * mcr;                       // side of the square-ish block
  double KM = 2.0 * q.M / (1 + q.M / m), KN = 2.0 * q.N / (1 + q.N / m);
  auto close = [](double x, double y) { return fabs(x - y) <= 1e-5 * std::max(fabs(x), fabs(y)); };
  if (q.N <= q.M) near |= close(q.K, KM);
  if (q.M <= q.N) near |= close(q.K, KN);
  if (q.N <= q.M && q.K <= KM) return MKN;
  if (q.M <= q.N && q.K <= KN) return NKM;
  return KMN;
}

static int dim(Case& c, int cap, int other) {
  switch (c.range(0, 3)) { case 0: return c.logrange(1, cap); case 1: return c.range(1, 400); case 2: return std::max(1, std::min(cap, other * c.pick({1, 2, 1, 3}) / c.pick({1, 2, 1, 3}) + c.range(-2, 2))); default: return c.pick({64, 128, 512, 1000, 1024, 3000, 4096}) + c.range(-1, 1); }
}

static Prob gen(Case& c) {
  Prob q; q.hw = gen_hw(c, 64, c.coin());
  if (c.chance(40)) q.hw.L3 = c.range(1, 255) << 20;
  q.p = c.chance(70) ? c.range(1, 8) : c.range(1, 100);
  int cap = c.coin() ? 1 << 22 : 4000;
  q.M = dim(c, cap, 500); q.N = dim(c, cap, q.M); q.K = dim(c, cap, c.coin() ? q.M : q.N);
  return q;
}

// automatic choice at the planner
static void derived(Case& c) {
  Prob q = gen(c);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  static const double junk[] = {1.0, 0.0, 0.25, 7.5, 1e9, -1.0};
  int prior = c.range(0, 3); ctx.alpha_n = junk[c.range(0, 5)]; if (c.chance(5)) ctx.alpha_n = NAN;
  bool user = c.chance(15);
  if (user) { q.mcu = q.hw.mr * c.range(1, 9); q.kcu = c.range(1, 200); q.ncu = q.hw.nr * c.range(1, 5); }
  describe(c, q); c.describe("%d earlier plans, prior ratio %g", prior, ctx.alpha_n);
  for (int i = 0; i < prior; i++) { Prob r = gen(c); blk_dims_t y; init_block_dims(r.M, r.N, r.K, r.p, &y, &ctx, c.pick({NA, KMN, MKN, NKM}), NULL, 4, i == 1 ? q.hw.mr : 0, i == 1 ? 3 : 0, i == 1 ? q.hw.nr : 0); }
  bool near; enum sched want = rule(q, near);
  enum sched got[3];
  for (int k = 0; k < 2; k++) { blk_dims_t x; memset(&x, k ? 0x5A : 0, sizeof x); plan_blocks(q, &x, &ctx, NA); got[k] = x.sch; }
  { cake_cntx_t f; set_ctx(&f, q.hw); cache_dims_t* d = get_cache_dims(q.M, q.N, q.K, q.p, &f, NA, NULL, 4, q.mcu, q.kcu, q.ncu); got[2] = d->sch; free(d); }
  c.label("rule says %s", SCHED[want]); if (near) c.label("at a threshold");
  c.nontrivial(!near && prior > 0);
  if (got[0] != got[1] || got[1] != got[2]) c.fail("choice not deterministic", "%d, then %d, %d on a fresh context", got[0], got[1], got[2]);
  if (got[0] != KMN && got[0] != MKN && got[0] != NKM) c.fail("no schedule chosen", "%d", got[0]);
  if (!near && got[0] != want) c.fail("schedule choice", "%s chosen, the I/O-cost rule gives %s", SCHED[got[0]], SCHED[want]);
}

// explicit requests at the planners
static void requested(Case& c) {
  Prob q = gen(c); q.sch = c.pick({KMN, MKN, NKM});
  bool user = c.coin();
  if (user) { q.mcu = q.hw.mr * c.range(1, 9); q.kcu = c.range(1, 200); q.ncu = q.hw.nr * c.range(1, 5); }
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  describe(c, q);
  bool near; enum sched r = rule(q, near);
  c.nontrivial(r != q.sch); c.label("request %s the rule", r == q.sch ? "equals" : "differs from");
  blk_dims_t x; memset(&x, 0x5A, sizeof x);
  plan_blocks(q, &x, &ctx, q.sch);
  if (x.sch != q.sch) c.fail("request ignored", "%s planned", SCHED[x.sch & 3]);
  cache_dims_t* d = get_cache_dims(q.M, q.N, q.K, q.p, &ctx, q.sch, NULL, 4, q.mcu, q.kcu, q.ncu);
  enum sched ds = d->sch; free(d);
  if (ds != q.sch) c.fail("request ignored", "get_cache_dims gives %d", ds);
  if (set_schedule(q.sch, q.M, q.N, q.K) != q.sch) c.fail("request ignored", "by set_schedule");
  if (q.sch == KMN && q.p <= TREE_NCORES) {                           // the grid planners know this schedule only
    memset(&x, 0x5A, sizeof x); init_block_dims_2d(q.M, q.N, q.K, q.p, &x, &ctx, KMN, NULL, 4, q.mcu, q.kcu, q.ncu);
    if (x.sch != KMN) c.fail("request ignored", "the 2-D planner gives %d", (int)x.sch);
    memset(&x, 0x5A, sizeof x); init_block_dims_2d_small(q.M, q.N, q.K, q.p, &x, &ctx, KMN, NULL);
    if (x.sch != KMN) c.fail("request ignored", "the small 2-D planner gives %d", (int)x.sch);
  }
}

// the standalone chooser: M-first for tall, N-first for wide, K-first otherwise
static void standalone(Case& c) {
  int cap = c.coin() ? 1 << 29 : c.coin() ? 40 : 5000;
  int M = c.logrange(1, cap), K, N;
  auto rel = [&](int v) { switch (c.range(0, 5)) { case 0: return v; case 1: return 2 * v; case 2: return std::max(1, v / 2); case 3: return std::max(1, 2 * v - 1); case 4: return std::max(1, v + c.range(-2, 2)); default: return c.logrange(1, cap); } };
  K = std::min(rel(M), cap); N = std::min(rel(c.coin() ? M : K), cap);
  c.describe("M=%d N=%d K=%d", M, N, K);
  enum sched g = set_schedule(NA, M, N, K);
  long m = M, n = N, k = K;
  enum sched w = (m >= 2 * k && m >= n) ? MKN : (k >= m && k >= n) ? KMN : (n >= 2 * k && n >= m) ? NKM : KMN;
  c.label("shape rule says %s", SCHED[w]); c.nontrivial(true);
  if (g != w) c.fail("schedule choice", "set_schedule gives %d, the shape rule %s", g, SCHED[w]);
  for (int s = 0; s < 3; s++) if (set_schedule((enum sched)s, M, N, K) != s) c.fail("request ignored", "%s", SCHED[s]);
}

// the schedule that cake_sgemm really runs: operands packed for the expected one multiply correctly,
// operands packed for another one (whose packed bytes differ) do not
static void executed(Case& c) {
  Limits l; l.flops = 6e5; l.dim = 400; l.maxp = 8;
  Prob q = gen_prob(c, E_1D, l, c.chance(30), 0);
  int flags = c.range(1, 3); uint32_t s = c.seed();
  if (c.chance(20)) { q.alpha = 2; q.beta = c.pick({0.f, 1.f}); }
  describe(c, q); c.describe("packed %d", flags);
  bool near = false; enum sched want = q.sch;
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  if (q.sch == NA) { blk_dims_t y; cake_cntx_t f; set_ctx(&f, q.hw); plan_blocks(q, &y, &f, NA); want = y.sch; enum sched r = rule(q, near); if (!near && r != want) c.fail("schedule choice", "%s chosen, the I/O-cost rule gives %s", SCHED[want], SCHED[r]); }
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N;
  Buf A(mk), B(kn), C(mn), R(mn); fill_int(A.p(), mk, s | 1); fill_int(B.p(), kn, s | 2);
  std::vector<float> pa[3], pb[3]; bool distinct = true;
  shim_reset(); shim_configure(s % 3, s, 0);
  ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
  Rng ro{s + 4ull}; std::vector<float> O(mn); for (auto& f : O) f = (float)ro.range(-3, 3);
  for (size_t i = 0; i < mn; i++) R[i] = q.alpha * R[i] + q.beta * O[i];
  auto run = [&](enum sched packed_for) {
    blk_dims_t x; memset(&x, 0, sizeof x);
    plan_blocks(q, &x, &ctx, packed_for);
    ABuf Ap(cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &ctx, packed_for) / 4), Bp(cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, &ctx) / 4);
    if (flags & 1) pack_A(A.p(), Ap.p(), q.M, q.K, q.p, &x, &ctx, packed_for);
    if (flags & 2) pack_B(B.p(), Bp.p(), q.K, q.N, q.p, &x, &ctx, packed_for);
    memcpy(C.p(), O.data(), mn * 4);
    call(q, &ctx, flags & 1 ? Ap.p() : A.p(), flags & 2 ? Bp.p() : B.p(), C.p(), flags & 1, (flags & 2) != 0);
  };
  // does the packing order of this problem reveal the schedule?
  std::vector<float> img[3];
  for (int k = 0; k < 3; k++) {
    blk_dims_t x; memset(&x, 0, sizeof x); cake_cntx_t f; set_ctx(&f, q.hw);
    plan_blocks(q, &x, &f, (enum sched)k);
    ABuf Ap(cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &f, (enum sched)k) / 4, 1), Bp(cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, &f) / 4, 1);
    if (flags & 1) { pack_A(A.p(), Ap.p(), q.M, q.K, q.p, &x, &f, (enum sched)k); img[k].assign(Ap.p(), Ap.p() + Ap.n); }
    if (flags & 2) { pack_B(B.p(), Bp.p(), q.K, q.N, q.p, &x, &f, (enum sched)k); img[k].insert(img[k].end(), Bp.p(), Bp.p() + Bp.n); }
  }
  int others = 0; for (int k = 0; k < 3; k++) others += k != want && !(img[k].size() == img[want].size() && !memcmp(img[k].data(), img[want].data(), img[k].size() * 4));
  c.label("executed %s%s, %d other orders distinguishable", q.sch == NA ? "auto " : "", SCHED[want], others); c.nontrivial(others > 0);
  run(want);
  expect_equal(c, C.p(), R.p(), q.M, q.N, "operands packed for the expected schedule");
}

// plain operands: the order in which the partial sums are rounded identifies the schedule
static void rounding(Case& c) {
  Limits l; l.flops = 6e5; l.dim = 300; l.maxp = 8;
  Prob q = gen_prob(c, E_1D, l, c.chance(30), 0);
  if (!q.mcu && c.coin()) { q.mcu = q.hw.mr * c.range(1, 3); q.kcu = c.range(1, 9); q.ncu = q.hw.nr * c.range(1, 3); }
  uint32_t s = c.seed(); describe(c, q);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  enum sched want = q.sch;
  if (q.sch == NA) { blk_dims_t y; cake_cntx_t f; set_ctx(&f, q.hw); plan_blocks(q, &y, &f, NA); want = y.sch; }
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N;
  Buf A(mk), B(kn), P(mn), C(mn);
  Rng r{s + 1ull}; for (size_t i = 0; i < mk; i++) A[i] = r.range(-1 << 20, 1 << 20) * 1e-3f; for (size_t i = 0; i < kn; i++) B[i] = r.range(-1 << 20, 1 << 20) * 1e-3f;
  shim_reset(); shim_configure(s % 3, s, 0);
  call(q, &ctx, A.p(), B.p(), P.p());
  auto packed = [&](enum sched k) {                // pre-packed for k and told to run k: runs k (see the arm above)
    cake_cntx_t f; set_ctx(&f, q.hw);
    blk_dims_t x; memset(&x, 0, sizeof x); plan_blocks(q, &x, &f, k);
    ABuf Ap(cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &f, k) / 4), Bp(cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, &f) / 4);
    pack_A(A.p(), Ap.p(), q.M, q.K, q.p, &x, &f, k); pack_B(B.p(), Bp.p(), q.K, q.N, q.p, &x, &f, k);
    cake_sgemm(Ap.p(), Bp.p(), C.p(), q.M, q.N, q.K, q.p, &f, NULL, 1, 1, 1, 0, k, q.mcu, q.kcu, q.ncu);
  };
  int others = 0;
  for (int k = 0; k < 3; k++) if (k != want) { packed((enum sched)k); others += !same_bits(C.p(), P.p(), mn); }
  c.label("rounding tells %d other schedules apart", others); c.nontrivial(others > 0);
  packed(want);
  if (!same_bits(C.p(), P.p(), mn)) c.fail("another schedule was run", "plain call with schedule %s does not round like %s", SCHED[q.sch], SCHED[want]);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C10";
  cfg.rule = "derived: automatic plan against the I/O-cost rule evaluated in double precision, repeated and on fresh contexts (non-trivial = away from the thresholds, after earlier plans); requested: explicit schedule at the planners (non-trivial = differs from what the rule would pick); standalone: set_schedule against the shape rule; executed: cake_sgemm on operands packed for the expected schedule against an exact product (non-trivial = another schedule packs these operands differently); rounding: plain calls against runs forced to the expected schedule, bit for bit (non-trivial = another schedule rounds differently)";
  cfg.arms = {{"derived", derived, 1500000, 12000000}, {"requested", requested, 600000, 4000000}, {"standalone", standalone, 800000, 5000000}, {"executed", executed, 100000, 900000}, {"rounding", rounding, 60000, 500000}};
  return pbt::main_impl(argc, argv, cfg);
}
