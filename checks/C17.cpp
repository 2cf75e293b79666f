// Self-checkers and random initialisers.
#include "cakegen.h"
extern "C" int __real_rand(void);
static int rand_mode = 0; static unsigned rand_n = 0;
extern "C" int __wrap_rand(void) {                    // the real generator, salted with its extreme values
  int v = __real_rand(); rand_n++;
  if (rand_mode == 1) { int k = v % 8; return k == 0 ? 0 : k == 1 ? RAND_MAX : k == 2 ? 1 : k == 3 ? RAND_MAX - 1 : k == 4 ? RAND_MAX / 2 : v; }
  if (rand_mode == 2) return 0;
  if (rand_mode == 3) return RAND_MAX;
  return v;
}
__attribute__((weak)) void rand_gaussian(float*, int, int);

static bool farcase = false; static int far_dim = 0;                                        // one dimension of this case is long: 1 M, 2 N, 3 K
static int dim0(Case& c) { return c.coin() ? c.range(1, 12) : c.chance(90) ? c.range(1, 70) : c.logrange(1, 400); }

static int dim(Case& c) { if (far_dim && !--far_dim) { c.label("one long dimension"); return gen_deep(c, 400, 250000); } int d = dim0(c); return far_dim >= 0 && farcase ? std::min(d, 24) : d; }
// what is done to the candidate; expected verdict
struct Corr { int kind, n; std::vector<size_t> at; bool wrong; };
static const char* CK[] = {"none", "below tolerance", "above tolerance", "far off", "NaN", "infinity", "exact opposite pair", "sign", "zeroed"};
static Corr corrupt(Case& c, float* C, size_t n, int N) {
  Corr k; k.kind = c.weighted({4, 3, 4, 3, 3, 3, 2, 2, 2}); k.wrong = k.kind >= 2; k.n = k.kind == 0 ? 0 : k.kind == 6 ? 2 : c.chance(70) ? 1 : c.range(1, 5);
  for (int i = 0; i < k.n; i++) {
    size_t at; switch (c.range(0, 4)) { case 0: at = 0; break; case 1: at = n - 1; break; case 2: at = N - 1; break; case 3: at = n - N; break; default: at = c.range(0, (int)n - 1); }
    bool dup = false; for (size_t o : k.at) dup |= o == at; if (dup) { for (at = 0; at < n; at++) { dup = false; for (size_t o : k.at) dup |= o == at; if (!dup) break; } if (at == n) { k.n = i; break; } }
    float s = c.coin() ? 1.f : -1.f; if (k.kind == 6) s = i ? -1.f : 1.f;
    switch (k.kind) {
      case 1: C[at] += s * 0.0005f; break;
      case 2: { float d = s * 0.0025f; while (C[at] + d == C[at]) d *= 2; C[at] += d; break; }
      case 3: C[at] += s * c.pick({1.f, 7.f, 1e6f, 1e30f}); break;
      case 4: C[at] = s * NAN; break;
      case 5: C[at] = s * INFINITY; break;
      case 6: C[at] += s * 3.f; break;
      case 7: C[at] = -C[at]; break;
      default: C[at] = 0; break;
    }
    k.at.push_back(at);
  }
  c.label("corruption: %s", CK[k.kind]);
  return k;
}
static void verdict(Case& c, bool got, const Corr& k, const char* what, int M, int N) {
  if (got == k.wrong) return;
  c.fail("wrong verdict", "%s on %dx%d says %s; corruption: %s at %zu element(s), first (%zu,%zu)", what, M, N, got ? "wrong" : "correct", CK[k.kind], k.at.size(), k.at.empty() ? (size_t)0 : k.at[0] / N, k.at.empty() ? (size_t)0 : k.at[0] % N);
}
static void sched(Case& c, uint32_t s) { shim_reset(); shim_configure(c.range(0, 3), s, c.chance(20) ? c.range(1, 3) : 0); }

static void gemm(Case& c) {
  int M = dim(c), N = dim(c), K = dim(c); uint32_t s = c.seed();
  Buf A((size_t)M * K), B((size_t)K * N), C((size_t)M * N);
  fill_int(A.p(), A.n, s, 8); fill_int(B.p(), B.n, s + 1, 8); ref_gemm(A.p(), B.p(), C.p(), M, N, K);
  for (size_t i = 0; i < C.n; i++) if (C[i] == 0 || fabs(C[i]) < 1) { A[(i / N) * K] += 1; ref_gemm(A.p(), B.p(), C.p(), M, N, K); break; }
  Corr k = corrupt(c, C.p(), C.n, N);
  if (k.kind >= 7) for (size_t at : k.at) { float r = 0; for (int q = 0; q < K; q++) r += A[(at / N) * K + q] * B[(size_t)q * N + at % N]; if (r == 0) { k.wrong = false; for (size_t a2 : k.at) { float r2 = 0; for (int q = 0; q < K; q++) r2 += A[(a2 / N) * K + q] * B[(size_t)q * N + a2 % N]; if (r2 != 0) k.wrong = true; } break; } }
  std::vector<float> a(A.v), b(B.v), o(C.v);
  c.describe("cake_sgemm_checker M=%d N=%d K=%d, %s x%d", M, N, K, CK[k.kind], k.n); c.nontrivial(M != N && M * N > 4); sched(c, s);
  bool got = cake_sgemm_checker(A.p(), B.p(), C.p(), N, M, K);
  verdict(c, got, k, "cake_sgemm_checker", M, N);
  if (!same_bits(a.data(), A.v.data(), a.size()) || !same_bits(b.data(), B.v.data(), b.size()) || !same_bits(o.data(), C.v.data(), o.size())) c.fail("argument modified", "A, B or C changed");
}
// a NaN or an infinity in an operand makes the product undefined there: the finite candidate must be rejected
static void gemm_special(Case& c) {
  int M = dim(c), N = dim(c), K = dim(c); uint32_t s = c.seed();
  Buf A((size_t)M * K), B((size_t)K * N), C((size_t)M * N);
  fill_int(A.p(), A.n, s, 8); fill_int(B.p(), B.n, s + 1, 8); ref_gemm(A.p(), B.p(), C.p(), M, N, K);
  bool ina = c.coin(), nan = c.coin(); size_t at = c.range(0, (int)(ina ? A.n : B.n) - 1); (ina ? A : B)[at] = nan ? NAN : INFINITY;
  c.describe("cake_sgemm_checker M=%d N=%d K=%d with %s in %s", M, N, K, nan ? "NaN" : "infinity", ina ? "A" : "B"); c.nontrivial(M * N > 4); sched(c, s);
  c.label("%s in an operand", nan ? "NaN" : "infinity");
  if (!cake_sgemm_checker(A.p(), B.p(), C.p(), N, M, K)) c.fail("wrong verdict", "finite C accepted although the product is not");
}
static void equals(Case& c) {
  int M = dim(c), N = dim(c); uint32_t s = c.seed(); Buf X((size_t)M * N), Y((size_t)M * N);
  Rng r{s + 1ull}; for (size_t i = 0; i < X.n; i++) X[i] = Y[i] = (float)r.range(1, 99) * (r.next() & 1 ? 1 : -1);
  bool second = c.coin(); Corr k = corrupt(c, second ? Y.p() : X.p(), X.n, N); std::vector<float> x(X.v), y(Y.v);
  c.describe("mat_equals %dx%d, %s x%d in the %s matrix", M, N, CK[k.kind], k.n, second ? "second" : "first"); c.nontrivial(M != N && M * N > 4); sched(c, s);
  verdict(c, mat_equals(X.p(), Y.p(), M, N), k, "mat_equals", M, N);
  if (!same_bits(x.data(), X.v.data(), x.size()) || !same_bits(y.data(), Y.v.data(), y.size())) c.fail("argument modified", "an argument changed");
}
static void add(Case& c) {
  int M = dim(c), N = dim(c), p = c.chance(95) ? c.range(1, 6) : c.range(1, 64); uint32_t s = c.seed(); size_t n = (size_t)M * N;
  std::vector<std::unique_ptr<Buf>> P; std::vector<float*> ptr; Buf C(n); Rng r{s + 1ull}; for (size_t i = 0; i < n; i++) C[i] = 0;
  for (int q = 0; q < p; q++) { P.emplace_back(new Buf(n)); for (size_t i = 0; i < n; i++) { float v = (float)r.range(1, 30); (*P[q])[i] = v; C[i] += v; } ptr.push_back(P[q]->p()); }
  bool part = c.chance(30); Corr k = part ? corrupt(c, ptr[c.range(0, p - 1)], n, N) : corrupt(c, C.p(), n, N);
  std::vector<float> o(C.v);
  c.describe("add_checker %dx%d of %d parts, %s x%d in %s", M, N, p, CK[k.kind], k.n, part ? "a part" : "the sum"); c.nontrivial(M != N && p > 1); c.label("%d parts", p); sched(c, s);
  verdict(c, add_checker(ptr.data(), C.p(), M, N, p), k, "add_checker", M, N);
  bool g = same_bits(o.data(), C.v.data(), o.size()); for (auto& q : P) g &= q->guards_ok(); if (!g) c.fail("argument modified", "an argument changed");
}
static void rnd(Case& c) {
  int which = c.range(0, 1), M = dim(c), N = dim(c); uint32_t s = c.seed(); rand_mode = c.range(0, 3); srand(s);
  if (which == 1 && !rand_gaussian) which = 0;
  Buf X((size_t)M * N, s & 15); for (size_t i = 0; i < X.n; i++) X[i] = NAN;
  c.describe("%s %dx%d generator mode %d seed %u", which ? "rand_gaussian" : "rand_init", M, N, rand_mode, s); c.label("%s mode %d", which ? "rand_gaussian" : "rand_init", rand_mode); c.nontrivial(M * N > 4);
  if (which) rand_gaussian(X.p(), M, N); else rand_init(X.p(), M, N);
  double sum = 0, sq = 0, lo = 9e9, hi = -9e9;
  for (size_t i = 0; i < X.n; i++) { float v = X[i]; if (!std::isfinite(v)) c.fail("not finite", "element %zu is %g", i, v); if (!which && !(v >= -1 && v <= 1)) c.fail("out of range", "element %zu is %.9g", i, v); sum += v; sq += (double)v * v; lo = std::min(lo, (double)v); hi = std::max(hi, (double)v); }
  if (!X.guards_ok()) c.fail("wrote outside the matrix", "guard words changed");
  if (rand_mode == 0 && X.n >= 2000) {
    double m = sum / X.n, v = sq / X.n - m * m; c.label("distribution checked");
    if (fabs(m) > (which ? 0.2 : 0.12)) c.fail("distribution", "mean %g over %zu values", m, X.n);
    if (fabs(v / (which ? 1.0 : 1 / 3.0) - 1) > 0.3) c.fail("distribution", "variance %g over %zu values", v, X.n);
    if (!which && (lo > -0.95 || hi < 0.95)) c.fail("distribution", "values only in [%g,%g]", lo, hi);
  }
  for (int i = 0; i < 5; i++) { float v = rand_gen(), w = normalRandom(); if (!(v >= 0 && v <= 1)) c.fail("out of range", "rand_gen gives %.9g", v); if (!std::isfinite(w)) c.fail("not finite", "normalRandom gives %g", w); }
}

// long matrices for every checker and the initialiser
static void large(Case& c) {
  int w = c.range(0, 3); farcase = true; far_dim = c.range(1, w == 0 ? 3 : 2);
  switch (w) { case 0: gemm(c); break; case 1: equals(c); break; case 2: add(c); break; default: rnd(c); }
}
#define NEAR(f) [](Case& c) { farcase = false; far_dim = 0; f(c); }

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C17";
  cfg.rule = "a case builds an exact candidate, leaves it alone or corrupts a few elements, and compares the checker's verdict (or fills a matrix from the initialiser under a salted generator); non-trivial = a non-square matrix of more than four elements (more than one part for the adder)";
  cfg.arms = {{"gemm", NEAR(gemm), 700000, 7000000}, {"gemm_special", NEAR(gemm_special), 80000, 800000}, {"equals", NEAR(equals), 400000, 4000000}, {"add", NEAR(add), 200000, 2000000}, {"rand", NEAR(rnd), 200000, 2000000}, {"large", large, 800, 12000}};
  return pbt::main_impl(argc, argv, cfg);
}
