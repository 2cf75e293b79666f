// Products and helpers with an empty dimension. Built with AddressSanitizer + UBSan; empty matrices are empty heap blocks.
#include "cakegen.h"
#include "util.h"

struct Heap { float* p; size_t n; Heap(size_t n_) : n(n_) { p = (float*)malloc(n * sizeof(float)); for (size_t i = 0; i < n; i++) p[i] = NAN; } ~Heap() { free(p); } };

static const char* DIMS[] = {"", "M", "N", "MN", "K", "MK", "NK", "MNK"};
static int empty_some(Case& c, Prob& q) {
  int e = c.pick({1, 2, 4, 4, 3, 5, 6, 7});
  if (e & 1) q.M = 0; if (e & 2) q.N = 0; if (e & 4) q.K = 0;
  c.label("empty %s", DIMS[e]);
  return e;
}
static void gemm(Case& c) {
  Entry e = c.pick({E_1D, E_1D, E_1D, E_ONLINE, E_2D, E_2DS, E_TEST});
  Limits l; l.flops = 3e5; l.dim = 400; l.maxp = 12; l.maxcores = 24; Prob q = gen_prob(c, e, l, c.chance(30), TREE_NCORES);
  if (c.chance(40)) { q.alpha = c.pick({2.f, 0.f, -1.f, 1.f}); q.beta = c.pick({0.f, 1.f, 2.f, -3.f}); }
  empty_some(c, q); uint32_t s = c.seed();
  describe(c, q); c.label("%s", ENTRY[e]); if (e == E_1D) c.label("%s", SCHED[q.sch & 3]); c.nontrivial(q.p > 1);
  size_t cn = (size_t)q.M * q.N; Heap A((size_t)q.M * q.K), B((size_t)q.K * q.N), C(cn);
  fill_int(A.p, A.n, s); fill_int(B.p, B.n, s); if (q.beta != 0) for (size_t i = 0; i < cn; i++) C.p[i] = 1 + i % 5;
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); shim_reset(); shim_configure(s % 3, s, 0);
  double t = call(q, &ctx, A.p, B.p, C.p);
  if (!(t >= 0) || !std::isfinite(t)) c.fail("time", "reported time %g", t);
  for (size_t i = 0; i < cn; i++) { float want = q.beta != 0 ? q.beta * (1 + i % 5) : 0; if (!(C.p[i] == want)) c.fail("wrong result", "C[%zu] of an empty sum is %g, expected %g", i, C.p[i], want); }
}

// plans, packing, unpacking of empty operands
static void packing(Case& c) {
  Limits l; l.flops = 3e5; l.dim = 300; l.maxp = 12; l.maxcores = 24; Prob q = gen_prob(c, E_1D, l, c.chance(30), 0);
  empty_some(c, q); int which = c.range(0, 3); uint32_t s = c.seed();
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); blk_dims_t x; memset(&x, 0, sizeof x); plan_blocks(q, &x, &ctx, q.sch);
  describe(c, q); c.describe("planned %s, routine %d", SCHED[x.sch], which); c.label("packing"); c.nontrivial(q.p > 1);
  shim_reset(); shim_configure(s % 3, s, 0); omp_set_num_threads(q.p);
  auto none = [&](const char* w, long v) { if (v) c.fail("plan", "%s is %ld for an empty dimension", w, v); };
  if (!q.M) { none("Mb", x.Mb); none("M_padded", x.M_padded); } if (!q.N) { none("Nb", x.Nb); none("N_padded", x.N_padded); } if (!q.K) none("Kb", x.Kb);
  size_t as = cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &ctx, x.sch), bs = cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, &ctx), cs = cake_sgemm_packed_C_size(q.M, q.N, q.p, &x, &ctx, x.sch);
  if (!q.M || !q.K) none("packed A size", as); if (!q.N || !q.K) none("packed B size", bs); if (!q.M || !q.N) none("packed C size", cs);
  Heap A((size_t)q.M * q.K), B((size_t)q.K * q.N), C((size_t)q.M * q.N); fill_int(A.p, A.n, s); fill_int(B.p, B.n, s); fill_int(C.p, C.n, s);
  if (which == 0) { Heap P(as / 4); pack_A(A.p, P.p, q.M, q.K, q.p, &x, &ctx, x.sch); }
  else if (which == 1) { Heap P(bs / 4); pack_B(B.p, P.p, q.K, q.N, q.p, &x, &ctx, x.sch); }
  else { Heap P(cs / 4), D(C.n); pack_C(C.p, P.p, q.M, q.N, q.p, &x, &ctx, x.sch); unpack_C(D.p, P.p, q.M, q.N, q.p, &x, &ctx, x.sch);
    for (size_t i = 0; i < D.n; i++) if (D.p[i] != C.p[i]) c.fail("wrong result", "unpacked C[%zu] is %g, expected %g", i, D.p[i], C.p[i]); }
}

static void helpers(Case& c) {
  static const char* W[] = {"cake_sgemm_checker", "mat_equals", "add_checker", "rand_init", "transpose_mat", "kernel"};
  int w = c.range(0, 5); Prob q; q.M = c.range(1, 30); q.N = c.range(1, 30); q.K = c.range(1, 30); int e = empty_some(c, q), p = c.range(0, 4);
  c.describe("%s M=%d N=%d K=%d p=%d", W[w], q.M, q.N, q.K, p); c.label("%s", W[w]); c.nontrivial(true); (void)e;
  shim_reset(); size_t cn = (size_t)q.M * q.N;
  Heap A((size_t)q.M * q.K), B((size_t)q.K * q.N), C(cn), D(cn); for (size_t i = 0; i < cn; i++) C.p[i] = D.p[i] = 0; fill_int(A.p, A.n, 1); fill_int(B.p, B.n, 2);
  bool bad = cn && c.coin(); if (bad) C.p[c.range(0, (int)cn - 1)] = 1; auto verdict = [&](bool r, bool want) { if (r != want) c.fail("wrong verdict", "%s returned %d, expected %d", W[w], r, want); };
  if (w == 0) { if (!q.K || !cn) verdict(cake_sgemm_checker(A.p, B.p, C.p, q.N, q.M, q.K), bad); }
  else if (w == 1) verdict(mat_equals(C.p, D.p, q.M, q.N), bad);
  else if (w == 2) { float* parts[4] = {D.p, D.p, D.p, D.p}; verdict(add_checker(parts, C.p, q.M, q.N, p), bad); }
  else if (w == 3) { rand_init(C.p, q.M, q.N); for (size_t i = 0; i < cn; i++) if (!(C.p[i] >= -1 && C.p[i] <= 1)) c.fail("rand_init", "value %g", C.p[i]); }
  else if (w == 4) { omp_set_num_threads(1 + p); transpose_mat(A.p, D.p, q.M, A.n ? 0 : q.K, 8, 8); }
  else {
    int im = c.range(0, table_mrs() - 1), in = c.range(0, table_nrs() - 1), mr = MR_MIN + MR_FACT * im, nr = NR_MIN + NR_FACT * in; c.describe(" tile %dx%d, depth 0", mr, nr);
    ABuf T((size_t)mr * nr), E(0), F(0); for (int i = 0; i < mr * nr; i++) T.p()[i] = i; kernel_map[im][in](E.p(), F.p(), T.p(), mr, nr, 0);
    for (int i = 0; i < mr * nr; i++) if (T.p()[i] != i) c.fail("wrong result", "the kernel changed C[%d] from %d to %g for depth 0", i, i, T.p()[i]);
  }
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C27";
  cfg.rule = "a case is one call with at least one dimension of zero under AddressSanitizer and UBSan, empty matrices being empty heap blocks; C must be exactly beta*C; non-trivial = p>1 or a helper";
  cfg.arms = {{"gemm", gemm, 60000, 600000}, {"packing", packing, 40000, 400000}, {"helpers", helpers, 30000, 200000}};
  return pbt::main_impl(argc, argv, cfg);
}
