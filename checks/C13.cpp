// Sparse (rosko) register-tile kernels: generated tables and the committed ones.
#include "pbt.h"
#include "arena.h"
#ifdef COMMITTED_ONLY
#define MR_MIN 6
#define NR_MIN 16
#else
#include "rosko_kernels.h"
static int table_mrs() { return (int)(sizeof(kernel_map_sp) / sizeof(kernel_map_sp[0])); }
static int table_nrs() { return (int)(sizeof(kernel_map_sp[0]) / sizeof(kernel_map_sp[0][0])); }
#endif
using pbt::Case;
static const int KMAX = 400;
#ifndef MAXMR
#define MAXMR 40
#define MAXNR 160
#endif
static Arena ga, gb, gc, gn, gk, gl;
static void init() {
  ga.make((size_t)MAXMR * KMAX * 4 + 4096); gb.make((size_t)MAXNR * KMAX * 4 + 4096); gc.make((size_t)MAXMR * MAXNR * 4 + 4096);
  gn.make(KMAX * 4 + 4096); gk.make(KMAX * 4 + 4096); gl.make((size_t)MAXMR * KMAX * 4 + 4096);
}
struct Rng { uint64_t s; uint32_t next() { s += 0x9E3779B97F4A7C15ull; return (uint32_t)(pbt::mix64(s) >> 32); }
  int range(int lo, int hi) { return lo + (int)(((uint64_t)next() * (uint32_t)(hi - lo + 1)) >> 32); } };

struct Sp { int mr, nr, k, kb; std::vector<int> nnz, kind, loc; std::vector<float> a, B, C0; std::vector<double> want; bool any_empty, mid_empty; int dens, order, empt; };

// k columns of an mr x kb panel, in the order the compressed form lists them.
static int deep_k(Case& c, int mr, int nr) {
  int hi = std::min(300000, 20000000 / (mr * nr)), e = c.range(9, 18); if (c.coin()) return c.logrange(380, hi);
  return std::min(hi, (1 << e) + c.pick({0, 1, -1, 2, 3, 4, 5, -2}));
}
static bool deep_case = false;
static Sp gen(Case& c, int mr, int nr, bool empties_last) {
  Sp s; s.mr = mr; s.nr = nr;
  if (deep_case) { s.k = deep_k(c, mr, nr); c.label("deep panel"); }
  else switch (c.range(0, 2)) { case 0: s.k = c.range(1, 9); break; case 1: s.k = c.range(1, 60); break; default: s.k = c.logrange(1, KMAX - 20); }
  s.kb = s.k + c.pick({0, 0, 1, 7, 20});             // rows of B (k_inds picks some of them)
  s.dens = c.range(0, 4); s.order = c.range(0, 2); s.empt = c.pick({0, 0, 20, 50, 90, 100}); uint32_t sd = c.seed();
  Rng r{sd * 77ull + 3};
  std::vector<std::vector<int>> cols(s.k); std::vector<int> rows(s.kb); for (int i = 0; i < s.kb; i++) rows[i] = i;
  if (s.order) for (int i = s.kb - 1; i > 0; i--) std::swap(rows[i], rows[r.range(0, i)]);
  for (int i = 0; i < s.k; i++) {
    if (r.range(0, 99) < s.empt) continue;
    std::vector<int> m(mr); for (int j = 0; j < mr; j++) m[j] = j;
    if (s.order == 2) for (int j = mr - 1; j > 0; j--) std::swap(m[j], m[r.range(0, j)]);
    int n = s.dens == 0 ? 1 : s.dens == 1 ? mr : s.dens == 2 ? r.range(1, mr) : s.dens == 3 ? r.range(1, 2) : r.range(std::max(1, mr - 1), mr);
    if (s.order != 2) { for (int j = mr - 1; j > 0; j--) std::swap(m[j], m[r.range(0, j)]); m.resize(n); std::sort(m.begin(), m.end()); }
    m.resize(n); cols[i] = m;
  }
  if (empties_last) std::stable_sort(cols.begin(), cols.end(), [](auto& x, auto& y) { return !x.empty() && y.empty(); });
  bool seen = false; s.any_empty = s.mid_empty = false;
  for (auto& m : cols) { if (m.empty()) { seen = true; s.any_empty = true; } else if (seen) s.mid_empty = true; }
  s.B.resize((size_t)s.kb * nr); for (auto& x : s.B) x = (float)r.range(-8, 8);
  s.C0.resize((size_t)mr * nr); for (auto& x : s.C0) x = (float)r.range(-50, 50);
  s.want.assign(s.C0.begin(), s.C0.end());
  for (int i = 0; i < s.k; i++) {
    s.nnz.push_back((int)cols[i].size()); s.kind.push_back(rows[i]);
    for (int m : cols[i]) { float v = (float)r.range(1, 8) * (r.next() & 1 ? 1 : -1); s.a.push_back(v); s.loc.push_back(m); for (int j = 0; j < nr; j++) s.want[m * nr + j] += (double)v * s.B[(size_t)rows[i] * nr + j]; }
  }
  return s;
}

template <class T> static T* put(Arena& a, const std::vector<int>& v, bool end) {
  std::vector<T> t(v.begin(), v.end()); char* p = a.place(t.size() * sizeof(T), end, sizeof(T)); memcpy(p, t.data(), t.size() * sizeof(T)); return (T*)p;
}

template <class N, class L, class F> static void run(Case& c, const Sp& s, F f, const char* what) {
  bool end = c.coin(); int reps = c.chance(15) ? 2 : 1;
  c.describe("%s %dx%d k=%d of %d, %zu nonzeros (density mode %d), order mode %d, %d%% empty columns%s, blocks at the %s of their pages x%d", what, s.mr, s.nr, s.k, s.kb, s.a.size(), s.dens, s.order, s.empt, s.mid_empty ? " in between" : "", end ? "end" : "start", reps);
  c.label("%s %dx%d", what, s.mr, s.nr); c.label("k mod 4 = %d", s.k % 4); c.label(s.mid_empty ? "empty columns in between" : s.any_empty ? "empty columns last" : "no empty column");
  c.nontrivial(s.k > 4 && s.a.size() > (size_t)s.k / 2);
  Arena ba[6]; Arena &gn = deep_case ? ba[0] : ::gn, &gk = deep_case ? ba[1] : ::gk, &gl = deep_case ? ba[2] : ::gl, &ga = deep_case ? ba[3] : ::ga, &gb = deep_case ? ba[4] : ::gb, &gc = deep_case ? ba[5] : ::gc;
  if (deep_case) for (auto& x : ba) x.make((size_t)std::max(s.mr, s.nr) * (s.kb + 64) * 4 + 8192);
  N* nn = put<N>(gn, s.nnz, end); int* kk = put<int>(gk, s.kind, end); L* ll = put<L>(gl, s.loc, end);
  ga.place(s.a.size() * 4, end); gb.place(s.B.size() * 4, end, 32); gc.place(s.C0.size() * 4, end);
  memcpy(ga.f(), s.a.data(), s.a.size() * 4); memcpy(gb.f(), s.B.data(), s.B.size() * 4); memcpy(gc.f(), s.C0.data(), s.C0.size() * 4);
  std::vector<N> n0(s.nnz.begin(), s.nnz.end()); std::vector<L> l0(s.loc.begin(), s.loc.end());
  for (int r = 0; r < reps; r++) f(ga.f(), gb.f(), gc.f(), s.mr, s.nr, s.k, nn, kk, ll);
  for (int i = 0; i < s.mr * s.nr; i++) { double w = s.C0[i] + reps * (s.want[i] - s.C0[i]); if (gc.f()[i] != w) c.fail("wrong tile", "%s %dx%d k=%d: element (%d,%d) is %.9g, expected %.9g", what, s.mr, s.nr, s.k, i / s.nr, i % s.nr, gc.f()[i], w); }
  if (memcmp(ga.f(), s.a.data(), s.a.size() * 4) || memcmp(gb.f(), s.B.data(), s.B.size() * 4) || memcmp(nn, n0.data(), n0.size() * sizeof(N)) || memcmp(kk, s.kind.data(), s.kind.size() * 4) || memcmp(ll, l0.data(), l0.size() * sizeof(L))) c.fail("input modified", "an input of the kernel changed");
  if (!ga.intact() || !gb.intact() || !gc.intact() || !gk.intact()) c.fail("wrote outside a block", "pattern changed");
  for (auto& x : ba) x.drop();
}

#ifndef COMMITTED_ONLY
static void generated(Case& c) {
  int mi = c.range(0, table_mrs() - 1), ni = c.range(0, table_nrs() - 1); bool any = c.coin();
  Sp s = gen(c, MR_MIN + MR_FACT * mi, NR_MIN + NR_FACT * ni, !any);
  if (any) run<unsigned char, unsigned char>(c, s, kernel_map_sp_new[mi][ni], "any-order kernel");
  else run<unsigned char, unsigned char>(c, s, kernel_map_sp[mi][ni], "early-exit kernel");
}
#endif
#ifdef USE_ROSKO_ARMV8
void cake_sp_sgemm_armv8_8x12(float*, float*, float*, int, int, int, int*, int*, int*);
static void committed(Case& c) { Sp s = gen(c, 8, 12, true); run<int, int>(c, s, cake_sp_sgemm_armv8_8x12, "committed"); }
#else
void cake_sp_sgemm_haswell_6x16(float*, float*, float*, int, int, int, int*, int*, int*);
void cake_sp_sgemm_haswell_3x32(float*, float*, float*, int, int, int, int*, int*, int*);
static void committed(Case& c) {
  if (c.coin()) { Sp s = gen(c, 3, 32, true); run<int, int>(c, s, cake_sp_sgemm_haswell_3x32, "committed"); }
  else { Sp s = gen(c, 6, 16, true); run<int, int>(c, s, cake_sp_sgemm_haswell_6x16, "committed"); }
}
#endif

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C13";
  cfg.rule = "a case runs one sparse kernel of a generated table (or a committed one) on a random compressed panel whose arrays end (or start) at an inaccessible page, against the dense product of the matrix it encodes; non-trivial = more columns than the unroll factor and at least k/2 nonzeros";
  // depths up to hundreds of thousands of columns
#ifdef COMMITTED
  cfg.arms.push_back({"committed", [](Case& c) { deep_case = false; committed(c); }, 800000, 8000000});
  cfg.arms.push_back({"committed deep", [](Case& c) { deep_case = true; committed(c); }, 150, 2500});
#endif
#ifndef COMMITTED_ONLY
  cfg.arms.push_back({"generated", [](Case& c) { deep_case = false; generated(c); }, 1800000, 18000000});
  cfg.arms.push_back({"generated deep", [](Case& c) { deep_case = true; generated(c); }, 200, 4000});
#endif
  cfg.init = init;
  return pbt::main_impl(argc, argv, cfg);
}
