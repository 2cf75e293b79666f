// Register-tile kernels of one generated table, one tile at a time.
#include "cakegen.h"
#include "arena.h"

static Arena ga, gb, gc;
static const int KMAX = 700;
static void init() {
  int mr = MR_MIN + MR_FACT * (table_mrs() - 1), nr = NR_MIN + NR_FACT * (table_nrs() - 1);
  ga.make((size_t)mr * KMAX * 4 * 4); gb.make((size_t)nr * KMAX * 4 * 4 + 4096); gc.make((size_t)mr * nr * 64 + 65536);
}

static int gen_k(Case& c) { switch (c.range(0, 3)) { case 0: return c.range(1, 9); case 1: return c.range(1, 70); case 2: return c.logrange(1, KMAX); default: return 4 * c.range(1, 40) + c.range(0, 3); } }

struct Tile { int mr, nr, k, mode; uint32_t s; };
// panels far deeper than a cache: blocks mapped per case
static int gen_far(Case& c, int mr, int nr) { return gen_deep(c, 600, std::min(1200000, 100000000 / (mr * nr))); }

static void fill_tile(Case& c, const Tile& t, std::vector<float>& A, std::vector<float>& B, std::vector<float>& C) {
  Rng r{t.s * 31ull + 9};
  A.resize((size_t)t.mr * t.k); B.resize((size_t)t.nr * t.k); C.resize((size_t)t.mr * t.nr);
  for (auto& x : A) x = t.mode == 2 ? r.range(-1 << 22, 1 << 22) * exp2f(r.range(-40, 10)) : (float)r.range(-8, 8);
  for (auto& x : B) x = t.mode == 2 ? r.range(-1 << 22, 1 << 22) * exp2f(r.range(-40, 10)) : (float)r.range(-8, 8);
  for (auto& x : C) x = t.mode == 2 ? r.range(-1 << 22, 1 << 22) * exp2f(r.range(-40, 10)) : t.mode == 1 ? (float)r.range(-100000, 100000) : (float)r.range(-8, 8);
}

// expected tile; A packed k-major (mr per column), B packed k-major (nr per row)
static void expect_tile(Case& c, const Tile& t, const float* A, const float* B, const float* C0, const float* C, const char* what) {
  for (int i = 0; i < t.mr; i++) for (int j = 0; j < t.nr; j++) {
    double s = C0[i * t.nr + j], e = fabs(s);
    for (int k = 0; k < t.k; k++) { double v = (double)A[(size_t)k * t.mr + i] * B[(size_t)k * t.nr + j]; s += v; e += fabs(v); }
    float g = C[i * t.nr + j];
    double tol = t.mode == 2 ? (t.k + 4) * 6.0e-8 * e * 1.01 + 1e-37 : 0;
    if (!(fabs(g - s) <= tol)) c.fail("wrong tile", "%s %dx%d k=%d: element (%d,%d) is %.9g, expected %.9g", what, t.mr, t.nr, t.k, i, j, g, s);
  }
}

static void kernel(Case& c) {
  Tile t; int mi = c.range(0, table_mrs() - 1), ni = c.range(0, table_nrs() - 1);
  t.mr = MR_MIN + MR_FACT * mi; t.nr = NR_MIN + NR_FACT * ni; t.k = gen_k(c); t.mode = c.range(0, 2); t.s = c.seed();
  bool end = c.coin(), wrapper = c.coin(); int reps = c.chance(20) ? 2 : 1, coff = c.range(0, 15);
  c.describe("tile %dx%d k=%d data mode %d, %s, blocks at the %s of their pages, C offset %d, x%d", t.mr, t.nr, t.k, t.mode, wrapper ? "through the context" : "from the table", end ? "end" : "start", coff, reps);
  c.label("tile %dx%d", t.mr, t.nr); c.label("k mod 4 = %d", t.k % 4); c.label("data mode %d", t.mode);
  c.nontrivial(t.k > 4);
  std::vector<float> A, B, C; fill_tile(c, t, A, B, C);
  // panels are 64-byte aligned in the library; A and C have no alignment requirement
  ga.place(A.size() * 4, end); gb.place(B.size() * 4, end, 64);
  char* cp = gc.place(C.size() * 4 + coff * 4, end); (void)cp;
  float* Cp = gc.f() + (end ? 0 : coff);
  // end: shift left of the guard page by coff floats so that C takes every alignment
  if (end) for (int i = 0; i < coff; i++) memcpy(gc.f() + C.size() + i, &gc.pat, 4); else for (int i = 0; i < coff; i++) memcpy(gc.f() + i, &gc.pat, 4);
  memcpy(ga.f(), A.data(), A.size() * 4); memcpy(gb.f(), B.data(), B.size() * 4); memcpy(Cp, C.data(), C.size() * 4);
  cake_cntx_t ctx; Hw h; set_ctx(&ctx, h); update_mr_nr(&ctx, t.mr, t.nr);
  if (ctx.mr != t.mr || ctx.nr != t.nr || ctx.m_map != mi || ctx.n_map != ni) c.fail("kernel index", "tile %dx%d gives table entry [%d][%d], expected [%d][%d]", t.mr, t.nr, ctx.m_map, ctx.n_map, mi, ni);
  for (int r = 0; r < reps; r++) {
    if (wrapper) cake_sgemm_ukernel(ga.f(), gb.f(), Cp, t.mr, t.nr, t.k, &ctx);
    else kernel_map[mi][ni](ga.f(), gb.f(), Cp, t.mr, t.nr, t.k);
  }
  Tile u = t; std::vector<float> A2 = A, B2 = B;
  if (reps == 2) { A2.insert(A2.end(), A.begin(), A.end()); B2.insert(B2.end(), B.begin(), B.end()); u.k *= 2; }
  expect_tile(c, u, A2.data(), B2.data(), C.data(), Cp, "kernel");
  if (memcmp(ga.f(), A.data(), A.size() * 4) || memcmp(gb.f(), B.data(), B.size() * 4)) c.fail("panel modified", "A or B changed");
  bool g = ga.intact() && gb.intact() && gc.intact();
  for (int i = 0; i < coff; i++) g &= !memcmp(end ? gc.f() + C.size() + i : gc.f() + i, &gc.pat, 4);
  if (!g) c.fail("wrote outside a panel", "pattern around a panel changed");
}

// the far end of "every k": depths up to a million, where counters and offsets of limited width give way
typedef void (*Kern)(float*, float*, float*, int, int, int);
static void deep_one(Case& c, Kern f, Tile& t, const char* what) {
  t.k = gen_far(c, t.mr, t.nr); t.mode = c.pick({0, 0, 2}); t.s = c.seed(); bool end = c.coin();
  c.describe("%s %dx%d k=%d data mode %d, blocks at the %s of their pages", what, t.mr, t.nr, t.k, t.mode, end ? "end" : "start");
  c.label("deep panel"); c.label("k mod 4 = %d", t.k % 4); c.nontrivial(true);
  std::vector<float> A, B, C; fill_tile(c, t, A, B, C);
  Arena a, b, d; a.make(A.size() * 4 + 4096); b.make(B.size() * 4 + 4096); d.make(C.size() * 4 + 4096);
  a.place(A.size() * 4, end); b.place(B.size() * 4, end, 64); d.place(C.size() * 4, end);
  memcpy(a.f(), A.data(), A.size() * 4); memcpy(b.f(), B.data(), B.size() * 4); memcpy(d.f(), C.data(), C.size() * 4);
  f(a.f(), b.f(), d.f(), t.mr, t.nr, t.k);
  expect_tile(c, t, A.data(), B.data(), C.data(), d.f(), what);
  if (memcmp(a.f(), A.data(), A.size() * 4) || memcmp(b.f(), B.data(), B.size() * 4)) c.fail("panel modified", "A or B changed");
  if (!a.intact() || !b.intact() || !d.intact()) c.fail("wrote outside a panel", "pattern around a panel changed");
  a.drop(); b.drop(); d.drop();
}
#ifdef COMMITTED
#ifdef USE_CAKE_ARMV8
void committed_8x12(float*, float*, float*, int, int, int);
#else
void committed_6x16(float*, float*, float*, int, int, int);
#endif
#endif
static void deep(Case& c) {
  Tile t; int mi = c.range(0, table_mrs() - 1), ni = c.range(0, table_nrs() - 1);
  t.mr = MR_MIN + MR_FACT * mi; t.nr = NR_MIN + NR_FACT * ni; Kern f = kernel_map[mi][ni]; const char* what = "kernel";
#ifdef COMMITTED
  if (c.chance(25)) { what = "committed kernel";
#ifdef USE_CAKE_ARMV8
    t.mr = 8; t.nr = 12; f = committed_8x12;
#else
    t.mr = 6; t.nr = 16; f = committed_6x16;
#endif
  }
#endif
  deep_one(c, f, t, what);
}

// NaN and infinity stay in their row / column, and reach all of it
static void specials(Case& c) {
  Tile t; int mi = c.range(0, table_mrs() - 1), ni = c.range(0, table_nrs() - 1);
  t.mr = MR_MIN + MR_FACT * mi; t.nr = NR_MIN + NR_FACT * ni; t.k = gen_k(c); t.mode = 0; t.s = c.seed();
  int side = c.range(0, 2), kk = c.range(0, t.k - 1), pos = side == 0 ? c.range(0, t.mr - 1) : side == 1 ? c.range(0, t.nr - 1) : c.range(0, t.mr * t.nr - 1);
  c.describe("tile %dx%d k=%d NaN in %s at k=%d index %d", t.mr, t.nr, t.k, side == 0 ? "A" : side == 1 ? "B" : "C", kk, pos);
  c.label("NaN in %s", side == 0 ? "A" : side == 1 ? "B" : "C"); c.nontrivial(true);
  std::vector<float> A, B, C; fill_tile(c, t, A, B, C);
  if (side == 0) A[(size_t)kk * t.mr + pos] = NAN; else if (side == 1) B[(size_t)kk * t.nr + pos] = NAN; else C[pos] = NAN;
  ga.place(A.size() * 4, true); gb.place(B.size() * 4, true, 64); gc.place(C.size() * 4, true);
  memcpy(ga.f(), A.data(), A.size() * 4); memcpy(gb.f(), B.data(), B.size() * 4); memcpy(gc.f(), C.data(), C.size() * 4);
  kernel_map[mi][ni](ga.f(), gb.f(), gc.f(), t.mr, t.nr, t.k);
  for (int i = 0; i < t.mr; i++) for (int j = 0; j < t.nr; j++) {
    bool want = side == 0 ? i == pos : side == 1 ? j == pos : i * t.nr + j == pos;
    if (std::isnan(gc.f()[i * t.nr + j]) != want) c.fail("NaN not local", "element (%d,%d) %s", i, j, want ? "should be NaN" : "is NaN");
  }
}

#if defined(COMMITTED) && defined(USE_CAKE_ARMV8)
void committed_8x12(float*, float*, float*, int, int, int);
static void committed(Case& c) {
  Tile t; t.mr = 8; t.nr = 12; t.k = gen_k(c); t.mode = c.range(0, 2); t.s = c.seed(); bool end = c.coin();
  c.describe("committed 8x12 kernel k=%d data mode %d", t.k, t.mode); c.label("committed"); c.nontrivial(t.k > 4);
  std::vector<float> A, B, C; fill_tile(c, t, A, B, C);
  ga.place(A.size() * 4, end); gb.place(B.size() * 4, end); gc.place(C.size() * 4, end);
  memcpy(ga.f(), A.data(), A.size() * 4); memcpy(gb.f(), B.data(), B.size() * 4); memcpy(gc.f(), C.data(), C.size() * 4);
  committed_8x12(ga.f(), gb.f(), gc.f(), 8, 12, t.k);
  expect_tile(c, t, A.data(), B.data(), C.data(), gc.f(), "committed kernel");
  if (!ga.intact() || !gb.intact() || !gc.intact()) c.fail("wrote outside a block", "pattern changed");
}
#elif defined(COMMITTED)
// the hand-written 6x16 kernels committed next to the generator
void committed_6x16(float*, float*, float*, int, int, int);
static void committed(Case& c) {
  int which = c.range(0, 4);
  Tile t; t.mr = 6; t.nr = 16; t.k = std::min(gen_k(c), 120); t.mode = c.range(0, 2); t.s = c.seed();
  int M = 6 + c.range(0, 40), N = 16 + c.range(0, 60), K = t.k + c.range(0, 3);
  static const char* W[] = {"packed", "unpacked", "A packed", "B packed", "C packed"};
  c.describe("committed 6x16 kernel, %s, k=%d in a %dx%dx%d problem, data mode %d", W[which], t.k, M, N, K, t.mode);
  c.label("committed %s", W[which]); c.label("k mod 4 = %d", t.k % 4); c.nontrivial(t.k > 4);
  std::vector<float> A, B, C; fill_tile(c, t, A, B, C);
  bool au = which == 1 || which == 3 || which == 4, bu = which == 1 || which == 2 || which == 4, cu = which >= 1 && which <= 3;
  size_t an = au ? (size_t)M * (t.k - 1) + 6 : A.size(), bn = bu ? (size_t)N * (t.k - 1) + 16 : B.size(), cn = cu ? (size_t)N * 5 + 16 : C.size();
  static Arena a, b, d; if (!a.base) { a.make(60 * 130 * 4); b.make(100 * 130 * 4); d.make(100 * 8 * 4); }
  a.place(an * 4, true); b.place(bn * 4, true, bu ? 4 : 32); d.place(cn * 4, true);
  for (size_t i = 0; i < an; i++) a.f()[i] = NAN;
  for (size_t i = 0; i < bn; i++) b.f()[i] = NAN;
  for (size_t i = 0; i < cn; i++) d.f()[i] = -12345;
  for (int k = 0; k < t.k; k++) { for (int i = 0; i < 6; i++) a.f()[au ? (size_t)k * M + i : k * 6 + i] = A[k * 6 + i]; for (int j = 0; j < 16; j++) b.f()[bu ? (size_t)k * N + j : k * 16 + j] = B[k * 16 + j]; }
  for (int i = 0; i < 6; i++) for (int j = 0; j < 16; j++) d.f()[cu ? (size_t)i * N + j : i * 16 + j] = C[i * 16 + j];
  switch (which) {
    case 0: committed_6x16(a.f(), b.f(), d.f(), 6, 16, t.k); break;
    case 1: cake_sgemm_haswell_6x16_unpacked(a.f(), b.f(), d.f(), 6, 16, t.k, M, K, N); break;
    case 2: cake_sgemm_haswell_6x16_A_packed(a.f(), b.f(), d.f(), 6, 16, t.k, M, K, N); break;
    case 3: cake_sgemm_haswell_6x16_B_packed(a.f(), b.f(), d.f(), 6, 16, t.k, M, K, N); break;
    default: cake_sgemm_haswell_6x16_C_packed(a.f(), b.f(), d.f(), 6, 16, t.k, M, K, N); break;
  }
  std::vector<float> G(96);
  for (int i = 0; i < 6; i++) for (int j = 0; j < 16; j++) G[i * 16 + j] = d.f()[cu ? (size_t)i * N + j : i * 16 + j];
  expect_tile(c, t, A.data(), B.data(), C.data(), G.data(), W[which]);
  if (cu) for (size_t i = 0; i < cn; i++) if ((int)(i % N) >= 16 && d.f()[i] != -12345) c.fail("wrote outside the tile", "row %zu column %zu", i / N, i % N);
  if (!a.intact() || !b.intact() || !d.intact()) c.fail("wrote outside a block", "pattern changed");
}
#endif

int main(int argc, char** argv) {
  pbt::Config cfg;
  #ifdef USE_CAKE_ARMV8
  cfg.property = "C12";
#else
  cfg.property = "C11";
#endif
  cfg.rule = "a case runs one kernel of a generated table (or a committed one) on one tile whose panels end (or start) at an inaccessible page, against a double-precision reference (exact for integer data); non-trivial = k larger than the unroll factor, or a NaN placed in a panel";
  cfg.arms = {{"kernel", kernel, 900000 * SCALE, 9000000 * SCALE}, {"specials", specials, 150000 * SCALE, 1500000 * SCALE}, {"deep", deep, 150 * SCALE, 3000 * SCALE}};
#ifdef COMMITTED
  cfg.arms.push_back({"committed", committed, 500000, 5000000});
#endif
  cfg.init = init;
  return pbt::main_impl(argc, argv, cfg);
}
