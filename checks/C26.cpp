// The tiles the planners choose by themselves against the cache budgets they are chosen for.
#include "cakegen.h"
#ifndef TREE_NCORES
#define TREE_NCORES 24
#endif

static int dim(Case& c, int cap) { return c.coin() ? c.logrange(1, cap) : c.chance(50) ? c.range(1, 300) : c.range(1, 4000); }
static Hw hw(Case& c, int cores) {
  Hw h = gen_hw(c, cores, c.chance(50));
  if (c.chance(20)) h.L2 = c.range(1, 64) << 20;
  if (c.chance(25)) h.L3 = c.range(16, 1023) << 20; else if (c.chance(30)) h.L3 = (int)std::min<long>((long)h.L2 * c.range(4, 400), 1 << 30);
  return h;
}
typedef long double ld;
// rounding in the planners' own square roots is no violation
static bool over(ld need, ld have) { return need > have * (1 + 1e-12L); }

static void plan_1d(Case& c) {
  Prob q; q.hw = hw(c, 64); int mr = q.hw.mr, nr = q.hw.nr, ts = c.pick({4, 4, 4, 8, 2, 1});
  q.p = c.chance(80) ? c.range(1, q.hw.ncores) : c.range(1, 80); q.sch = c.pick({KMN, MKN, NKM, NA}); q.e = E_1D;
  q.M = dim(c, 1 << 26); q.N = dim(c, 1 << 26); q.K = dim(c, 1 << 26);
  if (c.chance(40)) q.M = std::min<long>(1 << 28, std::max<long>(1, (long)est_mc(q.hw) * q.p * c.range(1, 3) + c.range(-8, 8)));
  describe(c, q); c.describe("%d-byte elements. ", ts);
  ld L2 = q.hw.L2, L3 = q.hw.L3, P = q.hw.ncores;
  if (over(2.0L * ts * ((ld)mr * mr + 2.0L * nr * mr), L2)) { c.discard(); return; }     // not even one register tile fits
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); if (c.coin()) ctx.alpha_n = c.range(0, 40) / 4.0;
  int mc, kc, nc; enum sched s;
  if (c.chance(30)) { cache_dims_t* d = ts == 4 && c.coin() ? get_cache_dims(q.M, q.N, q.K, q.p, &ctx, q.sch, NULL) : get_cache_dims(q.M, q.N, q.K, q.p, &ctx, q.sch, NULL, ts); mc = d->m_c; kc = d->k_c; nc = d->n_c; s = d->sch; free(d); }
  else { blk_dims_t x; memset(&x, 0, sizeof x); if (ts == 4) plan_blocks(q, &x, &ctx, q.sch); else init_block_dims(q.M, q.N, q.K, q.p, &x, &ctx, q.sch, NULL, ts); mc = x.m_c; kc = x.k_c; nc = x.n_c; s = x.sch; }
  c.describe("plan %s m_c=%d k_c=%d n_c=%d", SCHED[s & 3], mc, kc, nc); c.label("%s", SCHED[s & 3]);
  if (mc < 1 || kc < 1 || nc < 1) c.fail("tile", "empty tile");
  // largest tile (a multiple of the register tile) whose two working sets fit L2, and the one that fits L3 with all cores
  ld m2 = floorl((-nr + sqrtl((ld)nr * nr + L2 / (2.0L * ts))) / mr + 1e-9L) * mr, m3 = floorl(sqrtl(L3 / (2.0L * ts) / (P * (2 + P))) / mr + 1e-9L) * mr;
  bool roomy = (ld)q.M >= (ld)q.p * m2; c.label(roomy ? "M fills the blocks" : "M smaller than the blocks");
  if (s != NKM) {
    ld need = 2.0L * ts * ((ld)mc * kc + (ld)kc * nr + (ld)mc * nr);
    if (over(need, L2)) c.fail("L2 budget", "two working sets of m_c=%d k_c=%d need %.0Lf bytes of an L2 of %d", mc, kc, need, q.hw.L2);
    if (roomy && (mc < m2 - mr || kc < m2 - mr)) c.fail("L2 unused", "m_c=%d k_c=%d although %.0Lf fits an L2 of %d", mc, kc, m2, q.hw.L2);
  } else if (nc > std::max<ld>(nr, m2)) c.fail("L2 budget", "n_c=%d exceeds the largest tile %.0Lf of an L2 of %d", nc, m2, q.hw.L2);
  // p of P cores plan for p of the P shares of the L3
  if (s == NKM ? mc > std::max<ld>(mr, m3) : nc > std::max<ld>(nr, P * 1e-9L + (ld)q.p * m3))
    c.fail("L3 share", "%s: tile %d on %d of %d cores, whose share of an L3 of %d allows %.0Lf", SCHED[s], s == NKM ? mc : nc, q.p, q.hw.ncores, q.hw.L3, s == NKM ? m3 : (ld)q.p * m3);
  if (m2 <= m3 && q.p <= q.hw.ncores && nc > nr && (s != NKM || mc > mr)) {
    ld a, b, cc, p = q.p;
    if (s == KMN) { a = p * mc * kc; b = (ld)kc * nc; cc = p * mc * nc; }
    else if (s == MKN) { a = (ld)mc * p * kc; b = p * kc * nc; cc = (ld)mc * nc; }
    else { a = p * mc * p * kc; b = p * kc * nc; cc = p * mc * nc; }
    ld need = 2.0L * ts * (a + b + cc);
    c.label("L3 budget");
    if (over(need, L3)) c.fail("L3 budget", "%s blocks of %dx%dx%d on %d of %d cores need %.0Lf bytes of an L3 of %d", SCHED[s], mc, kc, nc, q.p, q.hw.ncores, need, q.hw.L3);
    // with every core at work the block uses the L3 it is given (the tile ratio absorbs what L2 leaves)
    ld want = floorl((s == NKM ? m3 : p * m3) / (s == NKM ? mr : nr)) * (s == NKM ? mr : nr);
    int got = s == NKM ? mc : nc, reg = s == NKM ? mr : nr;
    if (roomy && got < want - reg * (1 + (s == NKM ? 0 : 1)) - want * 1e-6L) c.fail("L3 unused", "%s: tile %d although %.0Lf fits an L3 of %d", SCHED[s], got, want, q.hw.L3);
    if (roomy) c.label("L3 filled");
  }
  c.nontrivial(roomy && q.p > 1);
}

static void l1_panel(Case& c, const Prob& q, int kc, bool maximal) {
  ld need = 4.0L * ((ld)kc * (q.hw.mr + q.hw.nr) + q.hw.mr * q.hw.nr), more = need + 4.0L * (q.hw.mr + q.hw.nr);
  if (over(need, q.hw.L1)) c.fail("L1 budget", "k_c=%d needs %.0Lf bytes of an L1 of %d", kc, need, q.hw.L1);
  if (maximal && more <= (ld)q.hw.L1 * (1 - 1e-9L)) c.fail("L1 unused", "k_c=%d although one more fits an L1 of %d", kc, q.hw.L1);
}
static void plan_2d(Case& c) {
  Prob q; q.e = E_2D; q.hw = hw(c, 8); q.hw.ncores = TREE_NCORES; q.p = c.range(1, TREE_NCORES);
  q.M = dim(c, 1 << 24); q.N = dim(c, 1 << 24); q.K = dim(c, 1 << 24); int mr = q.hw.mr, nr = q.hw.nr;
  describe(c, q); if (q.hw.L1 < 4 * (mr * nr + mr + nr)) { c.discard(); return; }
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); blk_dims_t x; memset(&x, 0, sizeof x);
  if (c.coin()) init_block_dims_2d(q.M, q.N, q.K, q.p, &x, &ctx, KMN, NULL); else init_block_dims_2d(q.M, q.N, q.K, q.p, &x, &ctx, KMN, NULL, 4, 0, 0, 0);
  c.describe("plan m_c=%d k_c=%d n_c=%d grid %dx%d", x.m_c, x.k_c, x.n_c, x.pm, x.pn);
  l1_panel(c, q, x.k_c, true);
  // two tiles m_c x m_c and a column of n_r fit L2, or m_c is a single register tile
  ld cap = q.hw.L2 / 4.0L; auto fits = [&](ld m) { return !over(2 * m * m + nr * m, cap); };
  if (x.m_c > mr && !fits(x.m_c)) c.fail("L2 budget", "m_c=%d does not fit an L2 of %d", x.m_c, q.hw.L2);
  bool roomy = fits(mr) && (ld)q.M >= (ld)q.p * (x.m_c + 2 * mr);
  if (roomy && x.M_padded > x.pm * x.m_c && fits(x.m_c + 2 * mr)) c.fail("L2 unused", "m_c=%d although %d fits an L2 of %d", x.m_c, x.m_c + 2 * mr, q.hw.L2);
  if (x.n_c > std::max(nr, x.m_c + nr - 1) ) c.fail("L2 budget", "n_c=%d for m_c=%d is not square", x.n_c, x.m_c);
  c.label("grid"); c.nontrivial(roomy && q.p > 1);
}
static void plan_2ds(Case& c) {
  Prob q; q.e = E_2DS; q.hw = hw(c, 8); q.hw.ncores = TREE_NCORES; q.p = c.range(1, TREE_NCORES);
  q.M = dim(c, 1 << 22); q.N = dim(c, 1 << 22); q.K = dim(c, 1 << 22);
  describe(c, q); if (q.hw.L1 < 4 * (q.hw.mr * q.hw.nr + q.hw.mr + q.hw.nr)) { c.discard(); return; }
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); blk_dims_t x; memset(&x, 0, sizeof x); init_block_dims_2d_small(q.M, q.N, q.K, q.p, &x, &ctx, KMN, NULL);
  c.describe("plan k_c=%d", x.k_c); l1_panel(c, q, x.k_c, x.k_c < q.K && x.k_c < x.m_c); if (x.k_c > q.K) c.fail("buffers", "k_c=%d is deeper than K=%d", x.k_c, q.K);
  c.label("small grid"); c.nontrivial(x.k_c < q.K && q.p > 1);
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C26";
  cfg.rule = "a case is one block plan without a user tile for a generated machine, element size and problem, whose working sets are compared with the cache budgets; non-trivial = the problem is large enough to fill the blocks and p>1 (2-D small: several panels)";
  cfg.arms = {{"1-D", plan_1d, 4000000, 40000000}, {"2-D", plan_2d, 2000000, 20000000}, {"2-D small", plan_2ds, 500000, 5000000}};
  return pbt::main_impl(argc, argv, cfg);
}
