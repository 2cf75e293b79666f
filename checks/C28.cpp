// What the library prints, read back.
#include "cakegen.h"
#include <cctype>
static int mem = -1;
// everything fn writes to standard output
template <class F> static std::string printed(F fn) {
  if (mem < 0) mem = memfd_create("out", MFD_CLOEXEC);
  fflush(stdout); int old = dup(1); if (ftruncate(mem, 0)) abort(); lseek(mem, 0, SEEK_SET); dup2(mem, 1);
  fn(); fflush(stdout); dup2(old, 1); close(old);
  std::string s; size_t n = lseek(mem, 0, SEEK_END); s.resize(n); if (n && pread(mem, &s[0], n, 0) != (ssize_t)n) abort();
  return s;
}
static std::vector<std::vector<std::string>> lines(const std::string& s) {       // the words of every line that has any
  std::vector<std::vector<std::string>> L; std::vector<std::string> w; std::string t;
  for (char ch : s + "\n") { if (isspace((unsigned char)ch)) { if (!t.empty()) w.push_back(t); t.clear(); if (ch == '\n') { if (!w.empty()) L.push_back(w); w.clear(); } } else t += ch; }
  return L;
}
static float value(Rng& r, int mode) {
  switch (mode) {
    case 0: return (float)r.range(-99, 99); case 1: return r.range(-1000000, 1000000) * 1e-6f; case 2: return r.range(-100000, 100000) * 0.37f;
    case 3: { uint32_t u = r.next(); return bitsf(u); }
    default: { static const float S[] = {0.f, -0.f, 1e-7f, 1e30f, -3.4e38f, 1e-40f, 0.0000005f, 16777216.f, INFINITY, -INFINITY, NAN, 123456.789f}; return S[r.next() % 12]; }
  }
}
// a printed number stands for v: special values by name, others to six decimals
static bool stands_for(const std::string& w, float v) {
  char* e; double d = strtod(w.c_str(), &e); if (*e) return false;
  if (v != v) return d != d;
  if (std::isinf(v)) return d == v;
  return fabs(d - v) <= 0.5e-6 * (1 + 1e-6) + fabs((double)v) * 1e-14;
}
static void matrix(Case& c) {
  bool arr = c.coin(); int r = arr ? 1 : c.range(0, 1) ? c.range(0, 12) : c.logrange(1, 300), k = c.coin() ? c.range(0, 20) : c.logrange(1, arr ? 3000 : 200), mode = c.range(0, 4); uint32_t s = c.seed();
  c.describe("%s %dx%d values of kind %d seed %u", arr ? "print_array" : "print_mat", r, k, mode, s); c.label("%s kind %d", arr ? "print_array" : "print_mat", mode); c.nontrivial(arr ? k > 1 : r > 1 && k > 1 && r != k);
  Buf X((size_t)r * k, s & 15); Rng g{s + 5ull}; for (size_t i = 0; i < X.n; i++) X[i] = value(g, mode);
  std::vector<float> o(X.p(), X.p() + X.n);
  auto L = lines(printed([&] { if (arr) print_array(X.p(), k); else print_mat(X.p(), r, k); }));
  size_t want = k == 0 ? 0 : r;
  if (L.size() != want) c.fail("wrong number of rows", "%zu rows printed for %d", L.size(), r);
  for (size_t i = 0; i < want; i++) {
    if (L[i].size() != (size_t)k) c.fail("wrong number of values", "row %zu has %zu values, expected %d", i, L[i].size(), k);
    for (int j = 0; j < k; j++) if (!stands_for(L[i][j], X[i * k + j])) c.fail("wrong value", "element (%zu,%d) is %.9g, printed as %s", i, j, (double)X[i * k + j], L[i][j].c_str());
  }
  if (!same_bits(o.data(), X.p(), X.n) || !X.guards_ok()) c.fail("argument modified", "the matrix changed");
}
static void schedule_name(Case& c) {
  enum sched s = c.pick({KMN, MKN, NKM}); c.describe("print_schedule %s", SCHED[s]); c.nontrivial(true); c.label("%s", SCHED[s]);
  std::string o = printed([&] { print_schedule(s); });
  for (int k = 0; k < 3; k++) if ((o.find(SCHED[k]) != std::string::npos) != (k == s)) c.fail("wrong schedule printed", "%s printed as \"%s\"", SCHED[s], o.c_str());
}
// the checkers say on standard output what they return, with the number of elements that differ
static void verdicts(Case& c) {
  int which = c.range(0, 2), M = c.range(1, c.coin() ? 8 : 40), N = c.range(1, c.coin() ? 8 : 40), K = c.range(1, 12), p = c.range(1, 4); bool big = c.chance(1) && c.chance(25); uint32_t s = c.seed();
  if (big) { M = c.logrange(1, 60000); N = c.range(1, std::max(1, 250000 / M)); K = c.range(1, 2); p = c.range(1, 2); c.label("large matrix"); }
  size_t n = (size_t)M * N;
  Buf A((size_t)M * K), B((size_t)K * N), C(n), X(n); fill_int(A.p(), A.n, s, 8); fill_int(B.p(), B.n, s + 1, 8); ref_gemm(A.p(), B.p(), C.p(), M, N, K); for (size_t i = 0; i < n; i++) X[i] = C[i];
  std::vector<std::vector<float>> parts(p, std::vector<float>(n, 0)); std::vector<float*> ptr; Rng r{s + 9ull};
  for (size_t i = 0; i < n; i++) { float left = C[i]; for (int q = 1; q < p; q++) { float v = (float)r.range(-20, 20); parts[q][i] = v; left -= v; } parts[0][i] = left; } for (auto& q : parts) ptr.push_back(q.data());
  std::set<size_t> bad; int nb = c.chance(35) ? 0 : c.chance(70) ? c.range(1, 5) : c.range(1, (int)n); 
  if (big) { size_t first = c.coin() ? 0 : c.range(0, (int)n - 1); for (size_t i = first; i < n; i++) bad.insert(i); } else for (int i = 0; i < nb; i++) bad.insert(c.range(0, (int)n - 1));
  int kind = c.range(0, 2); for (size_t i : bad) X[i] = kind == 0 ? X[i] + 2 : kind == 1 ? NAN : -INFINITY;
  c.describe("%s %dx%d, %zu elements wrong", which == 0 ? "mat_equals" : which == 1 ? "cake_sgemm_checker" : "add_checker", M, N, bad.size()); c.nontrivial(bad.size() > 1 && M != N); c.label("%s", bad.empty() ? "correct" : bad.size() == 1 ? "one wrong" : "several wrong");
  bool got = false; shim_reset(); shim_configure(s % 3, s, 0);
  std::string o = printed([&] { got = which == 0 ? mat_equals(X.p(), C.p(), M, N) : which == 1 ? cake_sgemm_checker(A.p(), B.p(), X.p(), N, M, K) : add_checker(ptr.data(), X.p(), M, N, p); });
  if (got != !bad.empty()) c.fail("wrong verdict", "returned %d", got);
  bool right = o.find("CORRECT") != std::string::npos, wrong = o.find("WRONG") != std::string::npos;
  if (right == wrong || wrong != got) c.fail("printed verdict differs", "returned %d and printed \"%.100s\"", got, o.c_str());
  if (got) { bool found = false; for (auto& l : lines(o)) for (auto& w : l) { char* e; long v = strtol(w.c_str(), &e, 10); if (!*e) { found = true; if (v != (long)bad.size()) c.fail("printed count differs", "%zu elements differ, printed %ld", bad.size(), v); } } if (!found) c.fail("printed count differs", "no count printed"); }
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C28";
  cfg.rule = "a case captures what one printing helper or checker writes to standard output, reads it back and compares it with the data (or the verdict and the number of wrong elements); non-trivial = a matrix with several rows and columns, a checker with several wrong elements";
  cfg.arms = {{"matrix", matrix, 150000, 1500000}, {"schedule", schedule_name, 300, 3000}, {"verdicts", verdicts, 200000, 2000000}};
  return pbt::main_impl(argc, argv, cfg);
}
