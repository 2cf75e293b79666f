#include "cakegen.h"

static long dim(Case& c, int cap) { return c.coin() ? c.logrange(1, cap) : c.chance(50) ? c.range(1, 300) : c.pick({1, 2, 1000, 1024, 4096, 10000, 65536, 100000}) * c.range(1, 8) + c.range(0, 17); }
static Hw hw(Case& c, int cap_cores) {
  Hw h = gen_hw(c, cap_cores, c.chance(50));
  if (c.chance(15)) h.L2 = c.range(2, 64) << 20;
  if (c.chance(15)) h.L3 = c.range(16, 1023) << 20;
  return h;
}

// one dimension: `blocks` full blocks of size `full`, then an optional remainder split over cores
static void dim_ok(Case& c, const char* d, long n, long full, long nblk, int pad, long cores, long used, long each, long last, long reg, bool split) {
  if (full <= 0) c.fail("plan", "%s: block size %ld", d, full);
  long nf = n / full, rem = n - nf * full;
  if ((pad != 0) != (rem != 0)) c.fail("plan", "%s: remainder %ld but pad flag %d", d, rem, pad);
  if (nblk != nf + (rem ? 1 : 0)) c.fail("plan", "%s: %ld blocks, expected %ld full and %d partial", d, nblk, nf, rem ? 1 : 0);
  if (!rem) return;
  long want = (rem + reg - 1) / reg * reg;
  if (split) {
    if (used < 1 || used > cores) c.fail("plan", "%s: remainder %ld split over %ld of %ld cores", d, rem, used, cores);
    if (each <= 0 || each % reg || last <= 0 || last % reg || last > each) c.fail("plan", "%s: remainder %ld: %ld per core, last core %ld (register tile %ld)", d, rem, each, last, reg);
    if ((used - 1) * each + last != want) c.fail("plan", "%s: remainder %ld is covered by %ld*%ld+%ld instead of %ld", d, rem, used - 1, each, last, want);
    if (each * cores > full && each > full / cores) c.fail("plan", "%s: a core's share %ld of the remainder exceeds its share of a full block %ld", d, each, full / cores);
  } else if (each != want) c.fail("plan", "%s: remainder %ld is covered by %ld instead of %ld", d, rem, each, want);
}

static void plan_1d(Case& c) {
  Prob q; q.hw = hw(c, 64); q.p = c.chance(60) ? c.range(1, 8) : c.range(1, 200);
  q.M = dim(c, 1 << 27); q.N = dim(c, 1 << 27); q.K = dim(c, 1 << 27); q.sch = c.pick({KMN, MKN, NKM, NA});
  int mr = q.hw.mr, nr = q.hw.nr;
  if (c.chance(40)) { q.mcu = mr * c.logrange(1, 200); q.kcu = c.logrange(1, 2000); q.ncu = nr * c.logrange(1, 200); }
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); if (c.coin()) ctx.alpha_n = c.range(0, 40) / 4.0;
  describe(c, q);
  blk_dims_t x; memset(&x, 0x5A, sizeof x);
  plan_blocks(q, &x, &ctx, q.sch);
  c.describe("plan %s m_c=%d k_c=%d n_c=%d", SCHED[x.sch & 3], x.m_c, x.k_c, x.n_c);
  if (x.sch != KMN && x.sch != MKN && x.sch != NKM) c.fail("plan", "schedule %d", x.sch);
  if (q.sch != NA && x.sch != q.sch) c.fail("plan", "schedule %s requested, %s planned", SCHED[q.sch], SCHED[x.sch]);
  if (x.m_c <= 0 || x.k_c <= 0 || x.n_c <= 0 || x.m_c % mr || x.n_c % nr) c.fail("plan", "tile %d x %d x %d (register tile %dx%d)", x.m_c, x.k_c, x.n_c, mr, nr);
  if (q.mcu && (x.m_c != q.mcu || x.k_c != q.kcu || x.n_c != q.ncu)) c.fail("plan", "requested tile %d,%d,%d not honoured", q.mcu, q.kcu, q.ncu);
  long p = q.p, pmc = p * (long)x.m_c, pkc = p * (long)x.k_c;
  if (x.sch == KMN) {
    dim_ok(c, "M", q.M, pmc, x.Mb, x.m_pad, p, x.p_l, x.m_c1, x.m_c1_last_core, mr, true);
    dim_ok(c, "K", q.K, x.k_c, x.Kb, x.k_pad, 1, 1, x.k_c1, x.k_c1, 1, false);
  } else {
    dim_ok(c, "M", q.M, x.sch == MKN ? x.m_c : pmc, x.Mb, x.m_pad, 1, 1, x.m_c1, x.m_c1, mr, false);
    dim_ok(c, "K", q.K, pkc, x.Kb, x.k_pad, p, x.p_l, x.k_c1, x.k_c1_last_core, 1, true);
    if (q.K % pkc && x.k_rem != q.K % pkc) c.fail("plan", "k_rem %d", x.k_rem);
  }
  dim_ok(c, "N", q.N, x.n_c, x.Nb, x.n_pad, 1, 1, x.n_c1, x.n_c1, nr, false);
  if (x.M_padded != (q.M + mr - 1) / mr * mr || x.N_padded != (q.N + nr - 1) / nr * nr) c.fail("plan", "padded size %d x %d", x.M_padded, x.N_padded);
  if ((long)q.M * q.K < 1 << 29 && (long)q.K * q.N < 1 << 29 && (long)q.M * q.N < 1 << 29) {        // advertised buffer sizes
    size_t a = cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &ctx, x.sch), b = cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, &ctx), cc = cake_sgemm_packed_C_size(q.M, q.N, q.p, &x, &ctx, x.sch);
    size_t Mp = (q.M + mr - 1) / mr * mr, Np = (q.N + nr - 1) / nr * nr;
    if (Mp * q.K < 1u << 31 && a < Mp * q.K * 4) c.fail("plan", "packed A size %zu < %zu", a, Mp * q.K * 4);
    if (Np * q.K < 1u << 31 && b < Np * q.K * 4) c.fail("plan", "packed B size %zu < %zu", b, Np * q.K * 4);
    if (Mp * Np < 1u << 31 && cc < Mp * Np * 4) c.fail("plan", "packed C size %zu < %zu", cc, Mp * Np * 4);
    c.label("buffer sizes checked");
  }
  // the context keeps its description; only the tile ratio may change
  cake_cntx_t o; set_ctx(&o, q.hw); o.alpha_n = ctx.alpha_n;
  if (memcmp(&o, &ctx, sizeof o)) c.fail("context changed", "planning changed a hardware field of the context");
  classify(c, q, x);
  c.nontrivial((x.m_pad || x.k_pad || x.n_pad) && q.p > 1);
  if ((double)q.M * q.N * q.K > 1e12) c.label("too large to multiply in a test");
}

static void plan_2d(Case& c) {
  Prob q; q.e = E_2D; q.hw = hw(c, 8); if (c.chance(80)) q.hw.ncores = TREE_NCORES; q.p = c.chance(80) ? c.range(1, TREE_NCORES) : c.range(1, 120);
  q.M = dim(c, 1 << 27); q.N = dim(c, 1 << 27); q.K = dim(c, 1 << 27);
  int mr = q.hw.mr, nr = q.hw.nr;
  if (c.chance(35)) { q.mcu = mr * c.logrange(1, 200); q.kcu = c.logrange(1, 2000); q.ncu = nr * c.logrange(1, 200); }
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); if (c.coin()) ctx.alpha_n = c.range(0, 40) / 4.0;
  describe(c, q);
  blk_dims_t x; memset(&x, 0x5A, sizeof x);
  init_block_dims_2d(q.M, q.N, q.K, q.p, &x, &ctx, KMN, NULL, 4, q.mcu, q.kcu, q.ncu);
  c.describe("grid %dx%d m_c=%d k_c=%d n_c=%d", x.pm, x.pn, x.m_c, x.k_c, x.n_c);
  if (x.m_c <= 0 || x.k_c <= 0 || x.n_c <= 0 || x.m_c % mr || x.n_c % nr) c.fail("plan", "tile %d x %d x %d", x.m_c, x.k_c, x.n_c);
  if (x.pm < 1 || x.pn < 1 || x.pm * x.pn > q.p) c.fail("plan", "grid %d x %d of %d threads", x.pm, x.pn, q.p);
  dim_ok(c, "M", q.M, (long)x.pm * x.m_c, x.Mb, x.m_pad, x.pm, x.pm_l, x.m_c1, x.m_c1_last_core, mr, true);
  dim_ok(c, "N", q.N, (long)x.pn * x.n_c, x.Nb, x.n_pad, x.pn, x.pn_l, x.n_c1, x.n_c1_last_core, nr, true);
  dim_ok(c, "K", q.K, x.k_c, x.Kb, x.k_pad, 1, 1, x.k_c1, x.k_c1, 1, false);
  if (x.M_padded != (q.M + mr - 1) / mr * mr || x.N_padded != (q.N + nr - 1) / nr * nr) c.fail("plan", "padded size %d x %d", x.M_padded, x.N_padded);
  cake_cntx_t o; set_ctx(&o, q.hw); o.alpha_n = ctx.alpha_n;
  if (memcmp(&o, &ctx, sizeof o)) c.fail("context changed", "planning changed a hardware field of the context");
  if (x.sch != KMN) c.fail("plan", "schedule %d instead of the requested one", (int)x.sch);
  c.label("grid plan"); c.label("%s", q.mcu ? "user tile" : "own tile");
  c.nontrivial((x.m_pad || x.n_pad) && q.p > 1);
}

static void plan_2ds(Case& c) {
  Prob q; q.e = E_2DS; q.hw = hw(c, 8); if (c.chance(80)) q.hw.ncores = TREE_NCORES; q.p = c.chance(80) ? c.range(1, TREE_NCORES) : c.range(1, 120);
  q.M = dim(c, 1 << 24); q.N = dim(c, 1 << 24); q.K = dim(c, 1 << 24);
  int mr = q.hw.mr, nr = q.hw.nr;
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); describe(c, q);
  blk_dims_t x; memset(&x, 0x5A, sizeof x);
  init_block_dims_2d_small(q.M, q.N, q.K, q.p, &x, &ctx, KMN, NULL);
  if (x.m_c <= 0 || x.k_c <= 0 || x.n_c <= 0 || x.m_c % mr || x.n_c % nr) c.fail("plan", "tile %d x %d x %d", x.m_c, x.k_c, x.n_c);
  if (x.pm < 1 || x.pn < 1 || x.pm * x.pn > q.p) c.fail("plan", "grid %d x %d of %d threads", x.pm, x.pn, q.p);
  if (x.M_padded != (q.M + mr - 1) / mr * mr || x.N_padded != (q.N + nr - 1) / nr * nr) c.fail("plan", "padded size %d x %d", x.M_padded, x.N_padded);
  if ((long)x.pm * x.m_c < x.M_padded || (long)x.pn * x.n_c < x.N_padded) c.fail("plan", "grid %d x %d of %d x %d tiles does not cover %d x %d", x.pm, x.pn, x.m_c, x.n_c, q.M, q.N);
  dim_ok(c, "K", q.K, x.k_c, x.Kb, x.k_pad, 1, 1, x.k_c1, x.k_c1, 1, false);
  if (x.sch != KMN) c.fail("plan", "schedule %d instead of the requested one", (int)x.sch);
  c.label("small grid plan"); c.nontrivial(q.p > 1 && (q.M % mr || q.N % nr));
}

extern int lcm(int, int) __attribute__((weak));
extern double clamp_val(double, double, double) __attribute__((weak));
static void helpers(Case& c) {
  if (c.coin()) {
    if (!lcm) { c.nontrivial(false); return; }
    int a = c.coin() ? c.range(1, 64) : c.logrange(1, 3000), b = c.chance(10) ? a : c.coin() ? c.range(1, 64) : c.logrange(1, 3000);
    c.describe("lcm(%d, %d)", a, b);
    long x = a, y = b; while (y) { long t = x % y; x = y; y = t; }
    long want = (long)a / x * b, got = lcm(a, b);
    if (got != want) c.fail("helper", "lcm(%d, %d) = %ld, not %ld", a, b, got, want);
    c.label("lcm"); c.nontrivial(want != a && want != b);
  } else {
    if (!clamp_val) { c.nontrivial(false); return; }
    auto r = [&]() { return c.range(-4000, 4000) / (double)c.pick({1, 3, 8}); };
    double lo = r(), hi = r(), d = c.chance(25) ? (c.coin() ? lo : hi) : r(); if (lo > hi) std::swap(lo, hi);
    c.describe("clamp_val(%g, %g, %g)", d, lo, hi);
    double got = clamp_val(d, lo, hi), want = d < lo ? lo : d > hi ? hi : d;
    if (got != want) c.fail("helper", "clamp_val(%g, %g, %g) = %g, not %g", d, lo, hi, got, want);
    c.label("clamp"); c.nontrivial(want != d);
  }
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C09";
  cfg.rule = "a case is one block plan for a generated problem (sizes up to 2^27 per dimension, up to 200 threads), checked arithmetically for exact cover; non-trivial = a partial last block in some dimension and p>1";
  cfg.arms = {{"1-D", plan_1d, 4000000, 20000000}, {"2-D", plan_2d, 2500000, 12000000}, {"2-D small", plan_2ds, 800000, 3000000}, {"helpers", helpers, 200000, 1000000}};
  return pbt::main_impl(argc, argv, cfg);
}
