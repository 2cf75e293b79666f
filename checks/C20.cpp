// Changing the register tile of a context, at any time, through any entry point.
#ifndef PART
#define PART 45000
#endif
#include "cakegen.h"

static void history(Case& c) {
  Limits l; l.flops = c.chance(10) ? 1e7 : 6e5; l.dim = 400; l.maxp = 8;
  int n = c.range(2, 6), nm = table_mrs(), nn = table_nrs(); cake_cntx_t ctx; Hw h0; bool first = true; int used = 0; std::set<int> tiles; bool nt = false;
  Prob fp; std::vector<float> fA, fB, fC; int f_mi = 0, f_ni = 0; uint32_t fs = 0;
  static const Entry es[] = {E_1D, E_1D, E_1D, E_1D, E_ONLINE, E_2D, E_2DS, E_TEST};
  for (int step = 0; step < n; step++) {
    int mi = c.range(0, nm - 1), ni = c.range(0, nn - 1), mr = MR_MIN + MR_FACT * mi, nr = NR_MIN + NR_FACT * ni;
    Prob q = gen_prob(c, es[c.range(0, 7)], l, false, TREE_NCORES);
    if (first) {                                  // one machine for the whole history; it holds the largest tile
      h0 = q.hw; int MR = MR_MIN + MR_FACT * (nm - 1), NR = NR_MIN + NR_FACT * (nn - 1);
      h0.L2 = std::max(h0.L2, 8 * (MR * MR + 2 * MR * NR) + 64); h0.L1 = std::max(h0.L1, 4 * (MR * NR + MR + NR) + 64); h0.ncores = TREE_NCORES; h0.mr = MR_MIN; h0.nr = NR_MIN;
      set_ctx(&ctx, h0);
    }
    q.hw = h0; q.hw.mr = mr; q.hw.nr = nr; if (q.mcu) { q.mcu = mr * ((q.mcu / MR_MIN) > 0 ? q.mcu / MR_MIN : 1); q.ncu = nr * std::max(1, q.ncu / NR_MIN); }
    int extra = c.range(0, 2); for (int i = 0; i < extra; i++) update_mr_nr(&ctx, MR_MIN + MR_FACT * c.range(0, nm - 1), NR_MIN + NR_FACT * c.range(0, nn - 1));
    cake_cntx_t before = ctx; update_mr_nr(&ctx, mr, nr);
    if (ctx.mr != mr || ctx.nr != nr || ctx.m_map != mi || ctx.n_map != ni) c.fail("kernel index", "tile %dx%d gives %dx%d entry [%d][%d], expected [%d][%d]", mr, nr, ctx.mr, ctx.nr, ctx.m_map, ctx.n_map, mi, ni);
    if (ctx.L1 != before.L1 || ctx.L2 != before.L2 || ctx.L3 != before.L3 || ctx.ncores != before.ncores) c.fail("context changed", "update_mr_nr changed the machine description");
    uint32_t s = c.seed(); describe(c, q); c.label("tile %dx%d", mr, nr); nt |= classify(c, q, plan_of(q)); tiles.insert(mi * 100 + ni);
    size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N; Buf A(mk, s & 15), B(kn, s >> 4 & 15), C(mn), R(mn); fill_int(A.p(), mk, s); fill_int(B.p(), kn, s ? s + 1 : 0);
    for (size_t i = 0; i < mn; i++) C[i] = NAN;
    shim_reset(); shim_configure(s % 4, s, 0); call(q, &ctx, A.p(), B.p(), C.p()); ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
    expect_equal(c, C.p(), R.p(), q.M, q.N, "after a tile change");
    if (!C.guards_ok() || !A.guards_ok() || !B.guards_ok()) c.fail("wrote outside a matrix", "guard words changed");
    if (ctx.mr != mr || ctx.nr != nr || ctx.m_map != mi || ctx.n_map != ni) c.fail("context changed", "the call changed the register tile");
    if (first) {                                  // real-valued data, replayed at the end
      fp = q; f_mi = mi; f_ni = ni; fs = s; Rng r{s + 77ull}; fA.resize(mk); fB.resize(kn); fC.assign(mn, 0);
      for (auto& x : fA) x = r.range(-1 << 20, 1 << 20) * ldexpf(1, -20); for (auto& x : fB) x = r.range(-1 << 20, 1 << 20) * ldexpf(1, -20);
      shim_configure(0, 0, 0); call(fp, &ctx, fA.data(), fB.data(), fC.data());
    }
    first = false; used++;
  }
  update_mr_nr(&ctx, MR_MIN + MR_FACT * f_mi, NR_MIN + NR_FACT * f_ni);
  std::vector<float> g(fC.size(), -1); shim_reset(); shim_configure(0, 0, 0); call(fp, &ctx, fA.data(), fB.data(), g.data());
  if (!same_bits(g.data(), fC.data(), g.size())) c.fail("not restored", "after changing the tile back to %dx%d the first call gives other bits", fp.hw.mr, fp.hw.nr);
  c.label("distinct tiles in history=%zu", tiles.size()); c.nontrivial(nt && tiles.size() > 1);
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C20";
  cfg.rule = "a case is a history of register-tile changes on one context, each followed by an exact multiplication through some entry point, ending with a return to the first tile; non-trivial = at least two distinct tiles and a multi-block ragged multiplication with p>1";
  cfg.arms = {{"history", history, PART, 13 * PART}};
  return pbt::main_impl(argc, argv, cfg);
}
