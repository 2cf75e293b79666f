#include "cakegen.h"

static const float SC[] = {1, 0, 2, -1, 0.5f, -2, 3, 0.25f, -0.5f, 4, -3};

static void fill_old(float* C, size_t n, int kind, uint32_t seed) {
  Rng r{seed + 99ull};
  for (size_t i = 0; i < n; i++) switch (kind) {
    case 0: C[i] = (float)(int)(r.range(-9, 9)); break;
    case 1: C[i] = bitsf(0x7FC00000u | (r.next() & 0xFFFF)); break;          // NaN
    case 2: C[i] = (r.next() & 1) ? INFINITY : -INFINITY; break;
    default: C[i] = bitsf(r.next()); break;                                    // arbitrary bits
  }
}

static void scale(Case& c, Entry e) {
  Limits l; l.flops = c.chance(90) ? 1e6 : 2e7; l.dim = 500; l.maxp = 8;
  Prob q = gen_prob(c, e, l, false, TREE_NCORES);
  q.alpha = SC[c.range(0, 10)];
  bool beta0 = c.chance(40);
  q.beta = beta0 ? (c.chance(20) ? -0.0f : 0.0f) : SC[c.range(2, 10)] ;
  if (!beta0 && c.chance(25)) q.beta = 1;
  int kind = beta0 ? c.range(0, 3) : 0;
  // scalars far from 1: powers of two down to the smallest subnormal (all exact), NaN, an infinite beta
  int sp = c.range(0, 19), sexp = 0;
  if (sp == 17) { sexp = c.range(-149, 100); float f = ldexpf(c.coin() ? 1 : -1, sexp); q.alpha = f; if (!beta0) q.beta = c.coin() ? f : -f; }
  else if (sp == 18) { if (c.coin() || beta0) q.alpha = NAN; else q.beta = NAN; }
  else if (sp == 19 && !beta0) { q.beta = c.coin() ? INFINITY : -INFINITY; }
  if (sp == 17) c.label("scalars far from 1"); else if (q.alpha != q.alpha || q.beta != q.beta) c.label("NaN scalar"); else if (isinf(q.beta)) c.label("infinite beta");
  uint32_t sa = c.seed();
  describe(c, q); c.describe("old C: %s, seed %u", kind == 0 ? "integers" : kind == 1 ? "NaN" : kind == 2 ? "infinities" : "random bits", sa);
  bool nt = classify(c, q, plan_of(q));
  c.label("alpha%s1 beta%s", q.alpha == 1 ? "=" : "!=", q.beta == 0 ? "=0" : q.beta == 1 ? "=1" : " other");
  if (beta0) c.label("beta=0 old C kind %d", kind);
  c.nontrivial((q.alpha != 1 || q.beta != 0 || kind > 0) && (nt || q.M * q.N > 1));
  size_t mn = (size_t)q.M * q.N;
  Buf A((size_t)q.M * q.K), B((size_t)q.K * q.N), C(mn, sa & 15), R(mn), O(mn);
  fill_int(A.p(), A.n, sa); fill_int(B.p(), B.n, sa ? sa + 1 : 0);
  fill_old(C.p(), mn, kind, sa); if (isinf(q.beta)) for (size_t i = 0; i < mn; i++) if (C[i] == 0) C[i] = 5;
  for (size_t i = 0; i < mn; i++) O[i] = C[i];
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  shim_reset(); shim_configure(sa % 3, sa, 0);
  call(q, &ctx, A.p(), B.p(), C.p());
  ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
  for (size_t i = 0; i < mn; i++) R[i] = q.beta == 0 ? q.alpha * R[i] : q.alpha * R[i] + q.beta * O[i];
  if (q.alpha != q.alpha || q.beta != q.beta) {
    for (size_t i = 0; i < mn; i++) if (C[i] == C[i]) c.fail("wrong result", "alpha*A*B+beta*C: element %zu is %.9g under a NaN scalar", i, C[i]);
    return;
  }
  expect_equal(c, C.p(), R.p(), q.M, q.N, "alpha*A*B+beta*C");
}
static void s1(Case& c) { scale(c, E_1D); }
static void s2(Case& c) { scale(c, E_ONLINE); }
static void s3(Case& c) { scale(c, E_2D); }
static void s4(Case& c) { scale(c, E_2DS); }
static void s5(Case& c) { scale(c, E_TEST); }

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C03";
  cfg.rule = "a case is one GEMM call with generated alpha, beta and old C (integers, NaN, infinities, random bits) compared element-exactly; scalars and data are chosen so that every intermediate is exact; non-trivial = alpha!=1, or beta!=0, or old C not plain numbers";
  cfg.arms = {{"sgemm", s1, 120000, 600000}, {"online", s2, 60000, 300000}, {"grid", s3, 60000, 300000}, {"grid-small", s4, 30000, 300000}, {"test-entry", s5, 20000, 200000}};
  return pbt::main_impl(argc, argv, cfg);
}
