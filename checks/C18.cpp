// Numerical error bound and locality of NaN / infinity, for every entry point.
#include "cakegen.h"

static float gen_val(Rng& r, int mode, int e) {            // finite, over many binades
  uint32_t m = r.next() & 0x7FFFFF, s = r.next() & 0x80000000u;
  int x = mode == 0 ? 0 : mode == 1 ? r.range(-45, 45) : mode == 2 ? e : mode == 3 ? r.range(-75, -55) : r.range(-3, 3);
  if (mode == 3 && (r.next() & 7) == 0) x = r.range(-126, -100);
  return bitsf(s | (uint32_t)(127 + x) << 23 | m);
}

struct Data { std::vector<double> ref, mag; };
__attribute__((optimize("O3"), target("avx2,fma"), noinline))
static void dref(const float* A, const float* B, int M, int N, int K, Data& d) {
  d.ref.assign((size_t)M * N, 0); d.mag.assign((size_t)M * N, 0);
  for (int k = 0; k < K; k++) for (int i = 0; i < M; i++) { double a = A[(size_t)i * K + k]; double* __restrict r = &d.ref[(size_t)i * N]; double* __restrict m = &d.mag[(size_t)i * N]; const float* __restrict b = B + (size_t)k * N;
    for (int j = 0; j < N; j++) { double v = a * b[j]; r[j] += v; m[j] += fabs(v); } }
}

static Prob problem(Case& c) {
  static const Entry es[] = {E_1D, E_1D, E_1D, E_1D, E_ONLINE, E_2D, E_2DS, E_TEST};
  Limits l; if (c.chance(12)) { l.flops = 2e7; l.dim = 1500; l.maxp = 16; } else { l.flops = 1.5e6; l.dim = 600; }
  return gen_prob(c, es[c.range(0, 7)], l, c.chance(40), TREE_NCORES);
}

static void error(Case& c) {
  Prob q = problem(c); int mode = c.range(0, 5); uint32_t s = c.seed();
  bool sc = c.chance(20); if (sc) { q.alpha = c.pick({2.5f, -1.1f, 0.3f}); q.beta = c.pick({0.f, 0.7f, -3.3f}); }
  describe(c, q); c.describe("data mode %d seed %u", mode, s); c.label("data mode %d", mode); c.nontrivial(classify(c, q, plan_of(q)));
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N;
  Buf A(mk, s & 15), B(kn, s >> 4 & 15), C(mn, s >> 8 & 15); Rng r{s * 131ull + 7};
  std::vector<int> re(q.M), ce(q.N); for (auto& x : re) x = r.range(-40, 40); for (auto& x : ce) x = r.range(-40, 40);
  for (int i = 0; i < q.M; i++) for (int k = 0; k < q.K; k++) A[(size_t)i * q.K + k] = gen_val(r, mode, re[i]);
  for (int k = 0; k < q.K; k++) for (int j = 0; j < q.N; j++) B[(size_t)k * q.N + j] = gen_val(r, mode == 3 ? 3 : mode, ce[j]);
  if (mode == 5) for (int k = 0; k + 1 < q.K; k += 2) for (int i = 0; i < q.M; i++) {          // neighbours cancel up to a small rest
    A[(size_t)i * q.K + k + 1] = -A[(size_t)i * q.K + k] * (1 + 1e-4f * (i % 3)); if (!i) for (int j = 0; j < q.N; j++) B[(size_t)(k + 1) * q.N + j] = B[(size_t)k * q.N + j]; }
  std::vector<float> C0(mn); for (size_t i = 0; i < mn; i++) C[i] = C0[i] = gen_val(r, 0, 0);
  Data d; dref(A.p(), B.p(), q.M, q.N, q.K, d);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); shim_reset(); shim_configure(c.range(0, 3), s, 0);
  call(q, &ctx, A.p(), B.p(), C.p());
  double u = ldexp(1, -24), g = (q.K + 2 + (sc ? 3 : 0)) * u / (1 - (q.K + 6) * u) * 1.0001;
  for (size_t i = 0; i < mn; i++) {
    double ref = d.ref[i], mag = d.mag[i];
    if (sc) { ref = q.alpha * ref + (q.beta == 0 ? 0 : (double)q.beta * C0[i]); mag = fabs(q.alpha) * mag + fabs((double)q.beta * C0[i]); }
    double tol = g * mag + (q.K + 6) * ldexp(1, -149) * (1 + fabs(q.alpha));
    if (!(fabs((double)C[i] - ref) <= tol)) c.fail("error bound", "element (%zu,%zu): got %.9g, exact %.17g, difference %.3g, bound %.3g (K=%d)", i / q.N, i % q.N, C[i], ref, fabs(C[i] - ref), tol, q.K);
  }
}

static const char* K3[] = {"NaN", "+inf", "-inf"};
// specials reach exactly the elements IEEE arithmetic says they reach
static void special(Case& c) {
  Prob q = problem(c); uint32_t s = c.seed(); int n = c.range(1, 4), zeros = c.pick({0, 0, 10, 40});
  describe(c, q); c.describe("%d special values, %d%% zeros, seed %u: ", n, zeros, s);
  bool nt = classify(c, q, plan_of(q)); c.nontrivial(nt || q.M * q.N > 50);
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N;
  Buf A(mk, s & 15), B(kn, s >> 4 & 15), C(mn, s >> 8 & 15); fill_int(A.p(), mk, s + 1); fill_int(B.p(), kn, s + 2); Rng r{s * 7ull + 3};
  if (zeros) { for (size_t i = 0; i < mk; i++) if (r.range(0, 99) < zeros) A[i] = 0; for (size_t i = 0; i < kn; i++) if (r.range(0, 99) < zeros) B[i] = 0; }
  for (int i = 0; i < n; i++) {
    bool ina = c.coin(); int what = c.range(0, 2); int x, y, X = ina ? q.M : q.K, Y = ina ? q.K : q.N;
    x = c.pick({0, 1, 2}) == 0 ? X - 1 : c.range(0, X - 1); y = c.pick({0, 1, 2}) == 0 ? Y - 1 : c.range(0, Y - 1);
    (ina ? A : B)[(size_t)x * Y + y] = what == 0 ? NAN : what == 1 ? INFINITY : -INFINITY;
    c.describe("%s at %s(%d,%d) ", K3[what], ina ? "A" : "B", x, y); c.label("%s in %s", K3[what], ina ? "A" : "B");
  }
  for (size_t i = 0; i < mn; i++) C[i] = (s & 1) ? NAN : 1;
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); shim_reset(); shim_configure(c.range(0, 3), s, 0);
  call(q, &ctx, A.p(), B.p(), C.p());
  Data d; dref(A.p(), B.p(), q.M, q.N, q.K, d);
  for (size_t i = 0; i < mn; i++) {
    double w = d.ref[i]; float g = C[i];
    bool ok = std::isnan(w) ? std::isnan(g) : std::isinf(w) ? (g == (float)w) : g == (float)w;
    if (!ok) c.fail("special values", "element (%zu,%zu) is %.9g, IEEE arithmetic gives %.9g", i / q.N, i % q.N, g, w);
  }
}

// overflow and underflow happen where they must and nowhere else
static void extremes(Case& c) {
  Prob q = problem(c); uint32_t s = c.seed(); bool over = c.coin();
  describe(c, q); c.describe("%s seed %u", over ? "overflow" : "subnormal", s); c.label(over ? "overflow" : "subnormal"); c.nontrivial(classify(c, q, plan_of(q)));
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N; Buf A(mk), B(kn), C(mn);
  fill_int(A.p(), mk, s + 1); fill_int(B.p(), kn, s + 2); Rng r{s + 9ull};
  // all terms of one row have one sign, so the sum overflows in every order or in none
  for (int i = 0; i < q.M; i++) { int e = over ? r.range(50, 70) : r.range(-74, -60); if (over && i % 3 == 0) e = r.range(0, 20); for (int k = 0; k < q.K; k++) A[(size_t)i * q.K + k] = ldexpf(fabsf(A[(size_t)i * q.K + k]), e) * (i & 1 ? -1 : 1); }
  for (int k = 0; k < q.K; k++) for (int j = 0; j < q.N; j++) { float& b = B[(size_t)k * q.N + j]; b = ldexpf(fabsf(b), over ? 40 + j % 17 : -74) * (j & 2 ? -1 : 1); }
  Data d; dref(A.p(), B.p(), q.M, q.N, q.K, d);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); shim_reset(); shim_configure(c.range(0, 3), s, 0);
  call(q, &ctx, A.p(), B.p(), C.p());
  double u = ldexp(1, -24), g = (q.K + 2) * u * 1.01, MAX = 3.4028234663852886e38; bool any = false;
  for (size_t i = 0; i < mn; i++) {
    double w = d.ref[i], lo = fabs(w) * (1 - g), hi = fabs(w) * (1 + g) + (q.K + 4) * ldexp(1, -149); lo -= (q.K + 4) * ldexp(1, -149);
    double v = fabs((double)C[i]); bool ok = (w == 0 || C[i] == 0 || (w < 0) == (C[i] < 0)) && !std::isnan(C[i]);
    if (std::isinf(v)) { ok &= hi > MAX; any = true; } else { ok &= v >= lo && v <= hi && lo <= MAX * (1 + u); }
    if (!ok) c.fail("extreme range", "element (%zu,%zu) is %.9g, exact %.17g", i / q.N, i % q.N, C[i], w);
  }
  if (any) c.label("some element overflows");
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C18";
  cfg.rule = "a case is one multiplication of real-valued, special or extreme inputs through any entry point, against a double-precision reference with the running error bound; non-trivial = several blocks with a ragged edge and p>1 (or more than 50 elements for special values)";
  cfg.arms = {{"error", error, 60000, 800000}, {"special", special, 60000, 800000}, {"extremes", extremes, 30000, 400000}};
  return pbt::main_impl(argc, argv, cfg);
}
