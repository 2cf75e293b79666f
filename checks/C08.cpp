#include "cakegen.h"

static void uniq(float* a, size_t n, uint32_t s) {       // distinct non-zero exact integers, permuted
  for (size_t i = 0; i < n; i++) a[i] = (float)(i + 1);
  if (s & 1) { Rng r{s * 3ull + 1}; for (size_t i = n; i > 1; i--) std::swap(a[i - 1], a[r.next() % i]); }
  if (s & 2) for (size_t i = 0; i < n; i++) if (i % 3 == 0) a[i] = -a[i];
}

struct PP { Prob q; cake_cntx_t ctx; blk_dims_t x; uint32_t s; };
static PP gen(Case& c, int which, bool kmn = false) {   // which: 0 packs A, 1 B, 2 C
  Limits l; l.flops = c.chance(90) ? 3e6 : 6e7; l.dim = 600; l.maxp = 12;
  PP r; r.q = gen_prob(c, E_1D, l, c.chance(35), 0); if (kmn) r.q.sch = KMN;
  if (c.range(0, 199) == 199) {                            // a large matrix to pack; the third dimension costs nothing here
    int a = c.logrange(150, 4000), b = c.logrange(150, 4000); while ((double)a * b > 5e6) (a > b ? a : b) /= 2;
    int &d1 = which == 1 ? r.q.K : r.q.M, &d2 = which == 0 ? r.q.K : r.q.N; d1 = a; d2 = b; c.label("large matrix");
  }
  set_ctx(&r.ctx, r.q.hw); memset(&r.x, 0, sizeof r.x);
  plan_blocks(r.q, &r.x, &r.ctx, r.q.sch);
  int order = c.range(0, 3); r.s = c.seed(); int lim = c.chance(20) ? c.range(1, 4) : 0;
  describe(c, r.q); c.describe("planned %s, order %d, data seed %u", SCHED[r.x.sch], order, r.s);
  c.nontrivial(classify(c, r.q, r.x));
  shim_reset(); shim_configure(order, r.s, lim); omp_set_num_threads(r.q.p);
  return r;
}

// buffer = groups of gh x gw elements (gw fastest); each group is a tile of the matrix
// (rows x cols, leading dimension ld) with zeros outside, each matrix element exactly once
static void check_layout(Case& c, const char* what, const float* buf, size_t n, const std::vector<float>& mat, int rows, int cols, int trows, int tcols, bool colmajor) {
  std::vector<uint32_t> where(mat.size() + 1);
  for (size_t i = 0; i < mat.size(); i++) where[(size_t)fabsf(mat[i])] = (uint32_t)i;
  std::vector<bool> seen(mat.size());
  size_t g = (size_t)trows * tcols, cnt = 0;
  if (n % g) c.fail("packed size", "%s: advertised size %zu floats is not a whole number of %dx%d tiles", what, n, trows, tcols);
  for (size_t t = 0; t < n; t += g) {
    int r0 = -1, c0 = -1;
    for (size_t e = 0; e < g; e++) {
      int i = colmajor ? (int)(e % trows) : (int)(e / tcols), j = colmajor ? (int)(e / trows) : (int)(e % tcols);
      float v = buf[t + e];
      if (v != v || fabsf(v) > mat.size() || v != truncf(v)) c.fail("not written or garbage", "%s: element %zu of %zu of the packed buffer is %g", what, t + e, n, v);
      if (v == 0) { if (r0 >= 0 && r0 + i < rows && c0 + j < cols) c.fail("wrong layout", "%s: element %zu is zero instead of matrix element (%d,%d)", what, t + e, r0 + i, c0 + j); if (signbit(v)) c.fail("wrong padding", "%s: negative zero", what); continue; }
      size_t k = where[(size_t)fabsf(v)];
      if (mat[k] != v) c.fail("wrong value", "%s: element %zu is %g", what, t + e, v);
      int r = (int)(k / cols), cc = (int)(k % cols);
      if (e == 0) { r0 = r; c0 = cc; }
      else if (r0 < 0) c.fail("wrong layout", "%s: tile at %zu starts with padding but holds data", what, t);
      if (r != r0 + i || cc != c0 + j) c.fail("wrong layout", "%s: element %zu is matrix element (%d,%d), expected (%d,%d)", what, t + e, r, cc, r0 + i, c0 + j);
      if (seen[k]) c.fail("duplicated element", "%s: matrix element (%d,%d) appears twice", what, r, cc);
      seen[k] = true; cnt++;
    }
  }
  if (cnt != mat.size()) c.fail("missing elements", "%s: %zu of %zu matrix elements are in the packed buffer", what, cnt, mat.size());
}
static std::vector<float> vec(const Buf& b) { return std::vector<float>(b.p(), b.p() + b.n); }
static const uint32_t FILLS[] = {0xFFC0DEADu, 0x7F800000u, 0x40490FDBu, 0};

static void packA(Case& c) {
  PP r = gen(c, 0); Prob& q = r.q;
  Buf A((size_t)q.M * q.K, r.s & 15); uniq(A.p(), A.n, r.s);
  std::vector<float> a0 = vec(A);
  ABuf P(cake_sgemm_packed_A_size(q.M, q.K, q.p, &r.x, &r.ctx, r.x.sch) / 4, FILLS[r.s % 3]);
  pack_A(A.p(), P.p(), q.M, q.K, q.p, &r.x, &r.ctx, r.x.sch);
  check_layout(c, "pack_A", P.p(), P.n, a0, q.M, q.K, q.hw.mr, 1, true);
  if (!P.guards_ok()) c.fail("wrote outside the buffer", "pack_A");
  if (vec(A) != a0) c.fail("source modified", "pack_A");
  if (r.x.sch == KMN) {
    ABuf P2(P.n, FILLS[(r.s + 1) % 3]);
    pack_A_single_buf_k_first_blis(A.p(), P2.p(), q.M, q.K, q.p, &r.x, &r.ctx);
    if (!same_bits(P.p(), P2.p(), P.n)) c.fail("packing variants differ", "pack_A_single_buf_k_first_blis");
    if (!P2.guards_ok()) c.fail("wrote outside the buffer", "pack_A blis");
  }
}
static void packB(Case& c) {
  PP r = gen(c, 1); Prob& q = r.q;
  Buf B((size_t)q.K * q.N, r.s & 15); uniq(B.p(), B.n, r.s);
  std::vector<float> b0 = vec(B);
  ABuf P(cake_sgemm_packed_B_size(q.K, q.N, q.p, &r.x, &r.ctx) / 4, FILLS[r.s % 3]);
  pack_B(B.p(), P.p(), q.K, q.N, q.p, &r.x, &r.ctx, r.x.sch);
  check_layout(c, "pack_B", P.p(), P.n, b0, q.K, q.N, 1, q.hw.nr, false);
  if (!P.guards_ok()) c.fail("wrote outside the buffer", "pack_B");
  if (vec(B) != b0) c.fail("source modified", "pack_B");
  if (r.x.sch == KMN) {
    ABuf P2(P.n, FILLS[(r.s + 1) % 3]);
    pack_B_k_first_blis(B.p(), P2.p(), q.K, q.N, &r.x, &r.ctx);
    if (!same_bits(P.p(), P2.p(), P.n)) c.fail("packing variants differ", "pack_B_k_first_blis");
    if (!P2.guards_ok()) c.fail("wrote outside the buffer", "pack_B blis");
  }
}
static void packC(Case& c) {
  PP r = gen(c, 2); Prob& q = r.q;
  Buf C((size_t)q.M * q.N, r.s & 15), D((size_t)q.M * q.N, (r.s >> 4) & 15); uniq(C.p(), C.n, r.s);
  std::vector<float> c0 = vec(C);
  ABuf P(cake_sgemm_packed_C_size(q.M, q.N, q.p, &r.x, &r.ctx, r.x.sch) / 4, FILLS[r.s % 3]);
  pack_C(C.p(), P.p(), q.M, q.N, q.p, &r.x, &r.ctx, r.x.sch);
  check_layout(c, "pack_C", P.p(), P.n, c0, q.M, q.N, q.hw.mr, q.hw.nr, false);
  if (!P.guards_ok()) c.fail("wrote outside the buffer", "pack_C");
  if (vec(C) != c0) c.fail("source modified", "pack_C");
  std::vector<float> p0(P.p(), P.p() + P.n);
  unpack_C(D.p(), P.p(), q.M, q.N, q.p, &r.x, &r.ctx, r.x.sch);
  if (!same_bits(C.p(), D.p(), C.n)) { size_t i = 0; while (fbits(C[i]) == fbits(D[i])) i++; c.fail("round trip", "unpack_C(pack_C(C)) differs from C at (%zu,%zu)", i / q.N, i % q.N); }
  if (!D.guards_ok()) c.fail("wrote outside C", "unpack_C");
  if (!same_bits(p0.data(), P.p(), P.n)) c.fail("source modified", "unpack_C");
}

// block-level packers against element-by-element definitions
static void blocks(Case& c) {
  int mr = MR_MIN + MR_FACT * c.range(0, table_mrs() - 1), nr = NR_MIN + NR_FACT * c.range(0, table_nrs() - 1);
  int M = c.range(1, 60), N = c.range(1, 80), K = c.range(1, 40);
  int kind = c.range(0, 4); uint32_t s = c.seed();
  shim_reset(); shim_configure(s % 4, s, 0); omp_set_num_threads(c.range(1, 6));
  int m0 = mr * c.range(0, (M - 1) / mr), n0 = nr * c.range(0, (N - 1) / nr), k0 = c.range(0, K - 1);
  int kc = c.range(1, K - k0), mt = c.range(1, (M - m0 + mr - 1) / mr), nt = c.range(1, (N - n0 + nr - 1) / nr);
  int mc = mt * mr, nc = nt * nr; bool pm = m0 + mc > M, pn = n0 + nc > N;
  int m2 = mr * c.range(0, m0 / mr), m1 = m0 - m2;
  c.describe("block packer %d: tile %dx%d matrix %d,%d,%d origin %d,%d,%d block %d,%d,%d", kind, mr, nr, M, N, K, m0, n0, k0, mc, nc, kc);
  c.nontrivial((pm || pn) && kc > 1); c.label("block packer %d%s", kind, pm || pn ? " edge" : "");
  auto same = [&](const char* w, ABuf& P, const std::vector<float>& R) {
    if (!P.guards_ok()) c.fail("wrote outside the buffer", "%s", w);
    for (size_t i = 0; i < R.size(); i++) if (fbits(P[i]) != fbits(R[i])) c.fail("wrong block packing", "%s: element %zu is %g instead of %g", w, i, P[i], R[i]);
  };
  std::vector<float> R; size_t o = 0;
  if (kind == 0) {
    Buf A((size_t)M * K); uniq(A.p(), A.n, s); R.resize((size_t)mc * kc);
    for (int a = 0; a < mc; a += mr) for (int i = 0; i < kc; i++) for (int j = 0; j < mr; j++) R[o++] = m0 + a + j < M ? A[(size_t)(m0 + a + j) * K + k0 + i] : 0.f;
    ABuf P(R.size()), Q(R.size());
    pack_ob_A_single_buf(A.p() + (size_t)m0 * K + k0, P.p(), M, K, m1, m2, mc, kc, mr, pm); same("pack_ob_A_single_buf", P, R);
    pack_ob_A_multiple_buf(A.p(), Q.p(), M, K, m1, k0, m2, mc, kc, mr, pm); same("pack_ob_A_multiple_buf", Q, R);
    ABuf T((size_t)mr * kc);
    if (m0 + mr <= M) { pack_A_mr_x_kc(A.p() + (size_t)m0 * K + k0, T.p(), K, kc, mr); R.resize((size_t)mr * kc); same("pack_A_mr_x_kc", T, R); }
  } else if (kind == 1) {
    Buf B((size_t)K * N); uniq(B.p(), B.n, s); R.resize((size_t)nc * kc);
    for (int a = 0; a < nc; a += nr) for (int i = 0; i < kc; i++) for (int j = 0; j < nr; j++) R[o++] = n0 + a + j < N ? B[(size_t)(k0 + i) * N + n0 + a + j] : 0.f;
    ABuf P(R.size()), Q(R.size());
    pack_ob_B_single_buf(B.p() + (size_t)k0 * N + n0, P.p(), K, N, n0, kc, nc, nr, pn); same("pack_ob_B_single_buf", P, R);
    pack_ob_B_parallel(B.p() + (size_t)k0 * N + n0, Q.p(), K, N, n0, kc, nc, nr, pn); same("pack_ob_B_parallel", Q, R);
    ABuf T((size_t)nr * kc);
    if (n0 + nr <= N) { pack_B_nr_x_kc(B.p() + (size_t)k0 * N + n0, T.p(), N, kc, nr); R.resize((size_t)nr * kc); same("pack_B_nr_x_kc", T, R); }
  } else if (kind == 2) {
    Buf C((size_t)M * N); uniq(C.p(), C.n, s); R.resize((size_t)mc * nc);
    for (int b = 0; b < nc; b += nr) for (int a = 0; a < mc; a += mr) for (int i = 0; i < mr; i++) for (int j = 0; j < nr; j++) R[o++] = m0 + a + i < M && n0 + b + j < N ? C[(size_t)(m0 + a + i) * N + n0 + b + j] : 0.f;
    ABuf P(R.size()), Q(R.size());
    pack_ob_C_single_buf(C.p() + (size_t)m0 * N + n0, P.p(), M, N, m1, n0, m2, mc, nc, mr, nr, pm, pn); same("pack_ob_C_single_buf", P, R);
    pack_ob_C_multiple_buf(C.p(), Q.p(), M, N, m1, n0, m2, mc, nc, mr, nr, pm || pn); same("pack_ob_C_multiple_buf", Q, R);
  } else if (kind == 3) {
    Buf D((size_t)M * N), E((size_t)M * N); std::vector<float> W(vec(D)); ABuf P((size_t)mc * nc); for (size_t i = 0; i < P.n; i++) P[i] = (float)(i + 1);
    for (int b = 0; b < nc; b += nr) for (int a = 0; a < mc; a += mr) for (int i = 0; i < mr; i++) for (int j = 0; j < nr; j++, o++) if (m0 + a + i < M && n0 + b + j < N) W[(size_t)(m0 + a + i) * N + n0 + b + j] = P[o];
    unpack_ob_C_single_buf(D.p() + (size_t)m0 * N + n0, P.p(), M, N, m1, n0, m2, mc, nc, mr, nr);
    unpack_ob_C_multiple_buf(E.p(), P.p(), M, N, m1, n0, m2, mc, nc, mr, nr);
    if (!same_bits(W.data(), D.p(), D.n) || !D.guards_ok()) c.fail("wrong block unpacking", "unpack_ob_C_single_buf");
    if (!same_bits(W.data(), E.p(), E.n) || !E.guards_ok()) c.fail("wrong block unpacking", "unpack_ob_C_multiple_buf");
  } else {
    int t = c.range(1, 12); Buf A((size_t)6 * t * K); uniq(A.p(), A.n, s); ABuf P((size_t)6 * t * K); cake_cntx_t ctx; Hw h; set_ctx(&ctx, h);
    pack_test1(A.p(), P.p(), 6 * t, K, 2, &ctx); R.resize(P.n);
    for (int a = 0; a < 6 * t; a += 6) for (int i = 0; i < K; i++) for (int j = 0; j < 6; j++) R[o++] = A[(size_t)(a + j) * K + i];
    same("pack_test1", P, R);
  }
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C08";
  cfg.rule = "a case packs a matrix of distinct values into a guarded buffer of the advertised size pre-filled with NaN/infinity/pi and checks it is a zero-padded tile-major permutation (and that unpacking restores it, and that variants agree bit for bit); non-trivial = several blocks with a ragged edge and p>1 (plans), padded edge block (block packers)";
  cfg.arms = {{"pack-A", packA, 70000, 1200000}, {"pack-B", packB, 70000, 1200000}, {"pack-C", packC, 70000, 1200000}, {"blocks", blocks, 180000, 2400000}};
  return pbt::main_impl(argc, argv, cfg);
}
