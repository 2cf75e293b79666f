// Built with AddressSanitizer + UBSan; every matrix is its own exactly-sized heap block.
#include "cakegen.h"
#include "util.h"

struct Heap { float* p; size_t n; Heap(size_t n_) : n(n_) { p = (float*)malloc(n * sizeof(float)); } ~Heap() { free(p); } };
static uint64_t hsh(const float* p, size_t n) { uint64_t h = 1; for (size_t i = 0; i < n; i++) h = h * 1099511628211ull ^ fbits(p[i]); return h; }

static void gemm(Case& c, Entry e) {
  Limits l; l.flops = c.chance(92) ? 3e5 : 4e6; l.dim = 500; l.maxp = 10; l.maxcores = 24; l.wide = 3e7;
  Prob q = gen_prob(c, e, l, c.chance(30), TREE_NCORES);
  if (c.chance(25)) { q.beta = c.pick({1.f, 2.f}); q.alpha = c.pick({1.f, -1.f}); }
  uint32_t sa = c.seed();
  describe(c, q); c.describe("seed %u", sa);
  c.nontrivial(classify(c, q, plan_of(q)));
  Heap A((size_t)q.M * q.K), B((size_t)q.K * q.N), C((size_t)q.M * q.N);
  fill_int(A.p, A.n, sa); fill_int(B.p, B.n, sa ? sa + 1 : 0);
  if (q.beta != 0) fill_int(C.p, C.n, sa + 2);
  uint64_t ha = hsh(A.p, A.n), hb = hsh(B.p, B.n);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  shim_reset(); shim_configure(sa % 3, sa, 0);
  call(q, &ctx, A.p, B.p, C.p);
  if (hsh(A.p, A.n) != ha) c.fail("modified an input", "A changed");
  if (hsh(B.p, B.n) != hb) c.fail("modified an input", "B changed");
}
static void g1(Case& c) { gemm(c, E_1D); }
static void g2(Case& c) { gemm(c, E_ONLINE); }
static void g3(Case& c) { gemm(c, E_2D); }
static void g4(Case& c) { gemm(c, E_2DS); }
static void g5(Case& c) { gemm(c, E_TEST); }

// packing and unpacking entry points on buffers of exactly the advertised size
static void packing(Case& c) {
  Limits l; l.flops = 4e5; l.dim = 300; l.maxp = 10; l.maxcores = 24; l.wide = 2e7;
  Prob q = gen_prob(c, E_1D, l, c.chance(30), 0);
  uint32_t sa = c.seed();
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  blk_dims_t x; memset(&x, 0, sizeof x);
  plan_blocks(q, &x, &ctx, q.sch);
  int which = c.range(0, 4);
  describe(c, q); c.describe("planned %s, packing routine %d", SCHED[x.sch], which);
  c.nontrivial(classify(c, q, x));
  c.label("pack routine %d", which);
  shim_reset(); shim_configure(sa % 3, sa, 0); omp_set_num_threads(q.p);
  Heap A((size_t)q.M * q.K), B((size_t)q.K * q.N), C((size_t)q.M * q.N);
  fill_int(A.p, A.n, sa); fill_int(B.p, B.n, sa); fill_int(C.p, C.n, sa);
  size_t as = cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &ctx, x.sch), bs = cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, &ctx), cs = cake_sgemm_packed_C_size(q.M, q.N, q.p, &x, &ctx, x.sch);
  if (which == 0) { Heap Ap(as / 4); pack_A(A.p, Ap.p, q.M, q.K, q.p, &x, &ctx, x.sch); }
  else if (which == 1) { Heap Bp(bs / 4); pack_B(B.p, Bp.p, q.K, q.N, q.p, &x, &ctx, x.sch); }
  else if (which == 2) { Heap Cp(cs / 4); pack_C(C.p, Cp.p, q.M, q.N, q.p, &x, &ctx, x.sch); unpack_C(C.p, Cp.p, q.M, q.N, q.p, &x, &ctx, x.sch); }
  else if (x.sch == KMN && which == 3) { Heap Ap(as / 4); pack_A_single_buf_k_first_blis(A.p, Ap.p, q.M, q.K, q.p, &x, &ctx); }
  else if (x.sch == KMN && which == 4) { Heap Bp(bs / 4); pack_B_k_first_blis(B.p, Bp.p, q.K, q.N, &x, &ctx); }
}

static void transpose(Case& c) {
  int K = c.range(1, 70), N = c.range(1, 70); uint32_t s = c.seed();
  c.describe("transpose %d x %d", K, N); c.nontrivial(K % 8 && N % 8);
  shim_reset(); shim_configure(s % 3, s, 0); omp_set_num_threads(c.range(1, 6));
  Heap A((size_t)K * N), T((size_t)K * N); fill_int(A.p, A.n, s);
  transpose_mat(A.p, T.p, K, N, 8, 8);
}

static void kernels(Case& c) {
  int im = c.range(0, table_mrs() - 1), in = c.range(0, table_nrs() - 1), mr = MR_MIN + MR_FACT * im, nr = NR_MIN + NR_FACT * in, k = c.logrange(1, 200);
  c.describe("kernel %dx%d k=%d", mr, nr, k); c.nontrivial(k > 1);
  Heap A((size_t)mr * k), B((size_t)nr * k), C((size_t)mr * nr); fill_int(A.p, A.n, 1); fill_int(B.p, B.n, 2); fill_int(C.p, C.n, 3);
  uint64_t ha = hsh(A.p, A.n), hb = hsh(B.p, B.n);
  // B and C panels are 64-byte aligned inside the library
  float *Bp = (float*)aligned_alloc(64, ((size_t)nr * k * 4 + 63) / 64 * 64), *Cp = (float*)aligned_alloc(64, ((size_t)mr * nr * 4 + 63) / 64 * 64);
  memcpy(Bp, B.p, B.n * 4); memcpy(Cp, C.p, C.n * 4);
  kernel_map[im][in](A.p, Bp, Cp, mr, nr, k);
  if (hsh(A.p, A.n) != ha || hsh(Bp, B.n) != hb) c.fail("modified an input", "kernel changed a panel");
  free(Bp); free(Cp);
}

static void checkers(Case& c) {
  int M = c.range(1, 30), N = c.range(1, 30), K = c.range(1, 20), p = c.range(1, 5);
  c.describe("checkers %d %d %d p=%d", M, N, K, p); c.nontrivial();
  Heap A((size_t)M * K), B((size_t)K * N), C((size_t)M * N), D((size_t)M * N);
  fill_int(A.p, A.n, 1); fill_int(B.p, B.n, 2); ref_gemm(A.p, B.p, C.p, M, N, K); memcpy(D.p, C.p, C.n * 4);
  uint64_t ha = hsh(A.p, A.n), hb = hsh(B.p, B.n), hc = hsh(C.p, C.n);
  shim_reset(); cake_sgemm_checker(A.p, B.p, C.p, N, M, K); mat_equals(C.p, D.p, M, N);
  std::vector<std::unique_ptr<Heap>> parts; std::vector<float*> pp;
  for (int i = 0; i < p; i++) { parts.emplace_back(new Heap((size_t)M * N)); memcpy(parts.back()->p, C.p, C.n * 4); pp.push_back(parts.back()->p); }
  for (size_t i = 0; i < D.n; i++) D.p[i] = C.p[i] * p;
  add_checker(pp.data(), D.p, M, N, p);
  Heap R((size_t)M * N); rand_init(R.p, M, N);
  if (hsh(A.p, A.n) != ha || hsh(B.p, B.n) != hb || hsh(C.p, C.n) != hc) c.fail("modified an input", "a checker changed its arguments");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C04";
  cfg.rule = "a case is one library call under AddressSanitizer and UBSan with every matrix an exactly-sized heap block (malloc filled with a pattern) and A/B hashed before and after; non-trivial = several blocks with a ragged edge (GEMM, packing), ragged tiles (transpose), k>1 (kernels)";
  cfg.arms = {{"sgemm", g1, 40000, 200000}, {"online", g2, 30000, 150000}, {"grid", g3, 30000, 150000}, {"grid-small", g4, 16000, 160000}, {"test-entry", g5, 10000, 100000},
              {"packing", packing, 30000, 150000}, {"transpose", transpose, 3000, 20000}, {"kernels", kernels, 4000, 30000}, {"checkers", checkers, 1500, 10000}};
  return pbt::main_impl(argc, argv, cfg);
}
