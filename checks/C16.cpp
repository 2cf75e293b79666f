// Transpose.
#include "cakegen.h"
#include "arena.h"

static Arena a, b, d;
static const size_t CAP = 400000;
static void init() { a.make(CAP * 4 + 4096); b.make(CAP * 4 + 4096); d.make(CAP * 4 + 4096); }

static int dim(Case& c) { switch (c.range(0, 4)) { case 0: return c.range(1, 18); case 1: return 8 * c.range(1, 12) + c.pick({0, 1, -1, 7, 4}); case 2: return c.range(1, 130); case 3: return c.logrange(1, 600); default: return 8 * c.range(1, 40); } }
static int tile(Case& c, int n) { switch (c.range(0, 4)) { case 0: return c.range(1, 24); case 1: return 8 * c.range(1, 6); case 2: return n; case 3: return c.logrange(1, 700); default: return c.pick({8, 16, 32, 64, 7, 9, 1}); } }

static void fill(std::vector<uint32_t>& S, int mode, uint32_t s) {
  Rng r{s * 19ull + 1};
  for (size_t i = 0; i < S.size(); i++) S[i] = mode == 0 ? fbits((float)i + 1) : mode == 1 ? r.next() : (r.next() & 3) ? 0x7F800000u | r.next() : 0x80000000u;   // labels, random bits, NaN payloads / infinities / -0
}

static void shape(Case& c, int R, int S, Arena& a, Arena& b, Arena& d);
static void whole(Case& c) {
  int R = dim(c), S = dim(c); while ((size_t)R * S > CAP) (R > S ? R : S) /= 2;
  shape(c, R, S, a, b, d);
}
// one dimension up to a million, or thousands in both
static void large(Case& c) {
  int kind = c.range(0, 2), R = kind == 0 ? gen_deep(c, 600, 1500000) : kind == 1 ? c.range(1, 20) : gen_deep(c, 500, 4000), S = kind == 0 ? c.range(1, 20) : kind == 1 ? gen_deep(c, 600, 1500000) : gen_deep(c, 500, 4000);
  while ((size_t)R * S > 9000000) (R > S ? R : S) /= 2;
  size_t bytes = (size_t)R * S * 4 + 4096; Arena x, y, z; x.make(bytes); y.make(bytes); z.make(bytes); c.label("large matrix");
  shape(c, R, S, x, y, z);
  x.drop(); y.drop(); z.drop();
}
static void shape(Case& c, int R, int S, Arena& a, Arena& b, Arena& d) {
  int Rt = tile(c, R), St = tile(c, S), mode = c.range(0, 2), order = c.range(0, 3), deliver = c.chance(30) ? c.range(1, 5) : 0; bool end = c.coin(); uint32_t s = c.seed(), garbage = c.pick({0xFFBAD000u, 0u, 0x7FC00000u});
  c.describe("%dx%d in tiles of %dx%d, data mode %d, thread order %d, at the %s of its pages", R, S, Rt, St, mode, order, end ? "end" : "start");
  c.label("rows mod 8 %s", R % 8 ? "!= 0" : "= 0"); c.label("columns mod 8 %s", S % 8 ? "!= 0" : "= 0"); c.label("tiles across %s", S > St ? ">1" : "1"); c.label("tiles down %s", R > Rt ? ">1" : "1"); c.label("data mode %d", mode);
  c.nontrivial((R > 8 || S > 8) && R > 1 && S > 1);
  size_t n = (size_t)R * S; std::vector<uint32_t> X(n); fill(X, mode, s);
  a.place(n * 4, end); b.place(n * 4, end); d.place(n * 4, end);
  memcpy(a.at, X.data(), n * 4); uint32_t* y = (uint32_t*)b.at; uint32_t* z = (uint32_t*)d.at; for (size_t i = 0; i < n; i++) y[i] = z[i] = garbage + (garbage ? (i & 15) : 0);
  shim_reset(); shim_configure(order, s, deliver);
  transpose_mat(a.f(), b.f(), R, S, Rt, St);
  for (int j = 0; j < S; j++) for (int i = 0; i < R; i++) if (y[(size_t)j * R + i] != X[(size_t)i * S + j]) c.fail("wrong transpose", "%dx%d tiles %dx%d: element (%d,%d) is %08x, expected %08x", R, S, Rt, St, j, i, y[(size_t)j * R + i], X[(size_t)i * S + j]);
  if (memcmp(a.at, X.data(), n * 4)) c.fail("source modified", "the source changed");
  int Rt2 = tile(c, R), St2 = tile(c, S);
  transpose_mat(b.f(), d.f(), S, R, St2, Rt2);
  if (memcmp(d.at, X.data(), n * 4)) c.fail("round trip", "%dx%d transposed twice (tiles %dx%d, then %dx%d) is not the original", R, S, Rt, St, St2, Rt2);
  if (!a.intact() || !b.intact() || !d.intact()) c.fail("wrote outside a matrix", "pattern changed");
}

// the tile routines with leading dimensions of their own
static void tiles(Case& c) {
  bool eight = c.coin(); int m = eight ? 8 : c.range(0, 9), n = eight ? 8 : c.range(0, 9);     // result is m x n
  int lda = std::max(m, 1) + c.pick({0, 0, 1, 3, 8, 50}), ldb = std::max(n, 1) + c.pick({0, 0, 1, 3, 8, 50}), mode = c.range(0, 2); bool end = c.coin(); uint32_t s = c.seed();
  c.describe("%s tile %dx%d lda=%d ldb=%d data mode %d", eight ? "8x8" : "edge", m, n, lda, ldb, mode); c.label(eight ? "8x8 routine" : "edge routine"); c.nontrivial(m > 1 && n > 1);
  size_t na = m && n ? (size_t)(n - 1) * lda + m : 0, nb = m && n ? (size_t)(m - 1) * ldb + n : 0;
  std::vector<uint32_t> X(na), W(nb); fill(X, mode, s); for (size_t i = 0; i < nb; i++) W[i] = 0xABC00000u + i;
  a.place(na * 4, end); b.place(nb * 4, end); memcpy(a.at, X.data(), na * 4); memcpy(b.at, W.data(), nb * 4);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) W[(size_t)i * ldb + j] = X[(size_t)j * lda + i];
  if (eight) transpose_8x8(a.f(), b.f(), lda, ldb); else transpose_mxn(a.f(), b.f(), lda, ldb, m, n);
  if (memcmp(b.at, W.data(), nb * 4)) c.fail("wrong tile", "tile %dx%d lda=%d ldb=%d", m, n, lda, ldb);
  if (memcmp(a.at, X.data(), na * 4) || !a.intact() || !b.intact()) c.fail("wrote outside the tile", "source or surroundings changed");
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C16";
  cfg.rule = "a case transposes one matrix (and back) between blocks that end (or start) at an inaccessible page, bit for bit; non-trivial = more than one 8x8 tile and both dimensions above 1";
  cfg.arms = {{"whole", whole, 800000, 9000000}, {"large", large, 300, 6000}, {"tiles", tiles, 1200000, 12000000}}; cfg.init = init;
  return pbt::main_impl(argc, argv, cfg);
}
