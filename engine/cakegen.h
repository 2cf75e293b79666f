// Generators, reference model and helpers shared by the GEMM checks.
#pragma once
#include "pbt.h"
#define BLIS_X86_ASM_MACROS_H // keep its lower-case macros out of the harness
#include "cake.h"
#include "omp_shim.h"
#include <memory>

using pbt::Case;

// ---------------------------------------------------------------- memory blocks
struct Buf {                       // tight float block with guard words and chosen alignment
  enum { G = 64 };
  std::vector<float> v; size_t n, off;
  Buf(size_t n_, size_t off_ = 0) : v(n_ + 2 * G + 16), n(n_), off(G + (off_ & 15)) {
    uint32_t s = 0xFFC0DEADu; for (auto& f : v) memcpy(&f, &s, 4);
  }
  float* p() { return v.data() + off; }
  const float* p() const { return v.data() + off; }
  bool guards_ok() const {
    uint32_t s = 0xFFC0DEADu;
    for (size_t i = 0; i < v.size(); i++) if (i < off || i >= off + n) if (memcmp(&v[i], &s, 4)) return false;
    return true;
  }
  float& operator[](size_t i) { return v[off + i]; }
};

struct Rng { uint64_t s; uint32_t next() { s += 0x9E3779B97F4A7C15ull; return (uint32_t)(pbt::mix64(s) >> 32); }
  int range(int lo, int hi) { return lo + (int)(((uint64_t)next() * (uint32_t)(hi - lo + 1)) >> 32); } };

static inline uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline float bitsf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }

// a size far above the usual ones: around a power of two, or anywhere (logarithmically) in [lo, hi]
static inline int gen_deep(Case& c, int lo, int hi) {
  if (c.coin()) return c.logrange(lo, hi);
  int e0 = 0, e1 = 0; while ((1 << e0) < lo) e0++; while (e1 < 30 && (2 << e1) <= hi) e1++;
  int v = e1 < e0 ? hi : (1 << c.range(e0, e1)) + c.pick({0, 1, -1, 2, 3, 4, 5, -2, 8, 17}); return std::min(std::max(v, lo), hi);
}

// small integers, so that every product and partial sum is exact in binary32
static inline void fill_int(float* a, size_t n, uint32_t seed, int mag = 4) {
  if (seed == 0) { for (size_t i = 0; i < n; i++) a[i] = (float)(1 + (int)(i % 3)); return; }
  Rng r{seed * 0x51ull + 7};
  for (size_t i = 0; i < n; i++) { int v = r.range(1, 2 * mag); a[i] = (float)(v > mag ? mag - v : v); }  // never zero
}

__attribute__((optimize("O3"), target("avx2,fma"), noinline))
static void ref_gemm(const float* A, const float* B, float* C, int M, int N, int K) {
  for (size_t i = 0; i < (size_t)M * N; i++) C[i] = 0;
  const int KB = 64;
  for (int kb = 0; kb < K; kb += KB) { int ke = kb + KB < K ? kb + KB : K;
    for (int i = 0; i < M; i++) { float* __restrict c = C + (size_t)i * N;
      for (int k = kb; k < ke; k++) { float a = A[(size_t)i * K + k]; const float* __restrict b = B + (size_t)k * N;
        for (int j = 0; j < N; j++) c[j] += a * b[j]; } } }
}

// ---------------------------------------------------------------- contexts
struct Hw { int L1 = 32 << 10, L2 = 1 << 20, L3 = 8 << 20, ncores = 4, mr = MR_MIN, nr = NR_MIN; };

static inline void set_ctx(cake_cntx_t* c, const Hw& h) {
  memset(c, 0, sizeof *c);
  c->alpha_n = 1.0; c->L1 = h.L1; c->L2 = h.L2; c->L3 = h.L3; c->ncores = h.ncores;
  c->peak_dram_bw = 32e9; c->peak_flops = 600e9;
  update_mr_nr(c, h.mr, h.nr);
}

static inline int table_mrs() { return (int)(sizeof(kernel_map) / sizeof(kernel_map[0])); }
static inline int table_nrs() { return (int)(sizeof(kernel_map[0]) / sizeof(kernel_map[0][0])); }

static inline Hw gen_hw(Case& c, int max_cores, bool any_tile) {
  Hw h;
  if (any_tile) { h.mr = MR_MIN + MR_FACT * c.range(0, table_mrs() - 1); h.nr = NR_MIN + NR_FACT * c.range(0, table_nrs() - 1); }
  int l2min = 8 * (h.mr * h.mr + 2 * h.mr * h.nr) + 64;      // one register tile must fit
  int l1min = 4 * (h.mr * h.nr + h.mr + h.nr) + 64;
  switch (c.weighted({5, 4, 2, 2})) {
    case 0: h.L2 = l2min + c.range(0, 14000); break;
    case 1: h.L2 = l2min + 16000 + c.range(0, 110000); break;
    case 2: h.L2 = c.pick({256, 512, 1024, 1280, 2048}) << 10; break;
    default: h.L2 = l2min + c.logrange(1, 1 << 21); break;
  }
  switch (c.weighted({4, 4, 2})) {
    case 0: h.L3 = h.L2 + c.logrange(1, 1 << 20); break;
    case 1: { long v = (long)h.L2 * c.range(1, 64); h.L3 = (int)std::min<long>(v, 512 << 20); break; }
    default: h.L3 = c.chance(5) ? c.logrange(64 << 20, 2147483647) : 1024 + c.logrange(1, 64 << 20); break;
  }
  h.L1 = c.coin() ? (c.pick({32, 48, 64, 16}) << 10) : l1min + c.logrange(1, 40000);
  h.ncores = c.chance(70) ? c.range(1, std::min(8, max_cores)) : max_cores >= 64 && c.chance(10) ? c.logrange(64, 2048) : c.range(1, max_cores);
  return h;
}

// ---------------------------------------------------------------- problems
enum Entry { E_1D, E_ONLINE, E_2D, E_2DS, E_TEST };
static const char* ENTRY[] = {"sgemm", "online", "2d", "2d_small", "sgemm_test"};
static const char* SCHED[] = {"KMN", "MKN", "NKM", "auto"};

struct Prob {
  Hw hw; Entry e = E_1D; int M = 1, N = 1, K = 1, p = 1; enum sched sch = NA; int mcu = 0, kcu = 0, ncu = 0;
  float alpha = 1, beta = 0;
};

static inline int est_mc(const Hw& h) {
  int mr = h.mr, nr = h.nr; double b = 2 * nr;
  int mc = (int)((-b + sqrt(b * b + 4 * ((double)h.L2 / 8))) / 2); mc -= mc % mr; return std::max(mc, mr);
}

static inline int gen_dim(Case& c, int reg, int blk, int pblk, int cap) {
  int v;
  switch (c.weighted({6, 8, 8, 8, 5, 1})) {
    case 0: v = c.range(1, 2 * reg + 2); break;
    case 1: v = c.logrange(1, cap); break;
    case 2: { int a = c.range(1, 4); v = a * blk + c.pick({0, 1, -1, reg, -reg, reg + 1, reg - 1}); break; }
    case 3: { int a = c.range(1, 3); v = a * pblk + c.pick({0, 1, -1, reg, -reg, 2 * reg + 1, blk, blk + 1, blk - 1}); break; }
    case 4: { int a = c.range(0, 3); v = a * pblk + c.range(1, std::max(1, pblk)); break; }
    default: v = c.range(1, 5) << c.range(0, 10); break;                 // multiples of large powers of two
  }
  return std::max(1, std::min(v, cap));
}

struct Limits { double flops = 2e6; int dim = 700; int maxp = 12; int maxcores = 64; double packmem = 2e7; bool hugep = false; int longest = 150000; double wide = 1e8; };

static inline Limits gen_limits(Case& c) {
  Limits l;
  switch (c.weighted({78, 18, 4})) {
    case 0: break;
    case 1: l.flops = 4e7; l.dim = 1600; l.maxp = 24; l.packmem = 6e7; break;
    default: l.flops = 3e8; l.dim = 3000; l.maxp = 40; l.packmem = 1.2e8; break;
  }
  return l;
}

static inline void clamp_flops(Prob& q, double flops) {
  while ((double)q.M * q.N * q.K > flops) {
    int* d = &q.M; if (q.N > *d) d = &q.N; if (q.K > *d) d = &q.K;
    *d = std::max(1, *d * 3 / 5);
  }
}

// grid_cores: number of cores the generated grid table covers (contexts mostly say so; some name another count)
static inline Prob gen_prob(Case& c, Entry e, const Limits& usual, bool any_tile, int grid_cores, bool user_tiles = true) {
  Prob q; q.e = e; Limits l = usual;
  if (l.longest && l.wide > l.flops && c.range(0, 249) == 249) {   // now and then far beyond the check's usual sizes and team
    l.flops = std::min(l.wide, l.flops * 400); l.dim = std::max(l.dim, 2000); l.maxp = std::max(l.maxp, 64); c.label("beyond the usual size");
  }
  bool grid = e == E_2D || e == E_2DS;
  q.hw = gen_hw(c, grid ? grid_cores : l.maxcores, any_tile);
  if (grid && c.chance(80)) q.hw.ncores = grid_cores;          // the table is generated for exactly this count
  q.p = c.chance(l.maxp > usual.maxp ? 30 : 75) ? c.range(1, 6) : l.hugep && c.chance(6) ? c.range(40, 250) : c.range(1, std::max(l.maxp, 1));
  if (e == E_1D) q.sch = c.pick({KMN, MKN, NKM, NA, MKN, NKM, KMN});
  int mr = q.hw.mr, nr = q.hw.nr, p = q.p;
  int mc = est_mc(q.hw), kc = mc, nc = std::max(nr, mc - mc % nr);
  if (user_tiles && e != E_2DS && e != E_TEST && c.chance(35)) {
    q.mcu = mr * c.range(1, c.coin() ? 3 : 12); q.kcu = c.coin() ? c.range(1, 12) : c.logrange(1, 160); q.ncu = nr * c.range(1, c.coin() ? 3 : 8);
    mc = q.mcu; kc = q.kcu; nc = q.ncu;
  } else if (grid) { kc = std::max(1, (q.hw.L1 / 4 - mr * nr) / (mr + nr)); mc = std::max(mr, (int)((-nr + sqrt(1.0 * nr * nr + 2.0 * q.hw.L2)) / 4)); mc -= mc % mr; mc = std::max(mc, mr); nc = mc + (nr - mc % nr) % nr; }
  mc = std::min(mc, l.dim); kc = std::min(kc, l.dim); nc = std::min(nc, l.dim);
  int g = 1; if (grid) { for (int i = 1; i * i <= p; i++) if (p % i == 0) g = i; }
  int pm = grid ? p / g : (q.sch == MKN ? 1 : p), pk = (q.sch == MKN || q.sch == NKM) ? p : 1, pn = grid ? g : 1;
  q.M = gen_dim(c, mr, mc, std::min(pm * mc, l.dim), l.dim);
  q.K = gen_dim(c, 2, kc, std::min(pk * kc, l.dim), l.dim);
  q.N = gen_dim(c, nr, nc, std::min(pn * nc, l.dim), l.dim);
  switch (c.range(0, 49)) { case 46: q.M = q.K; break; case 47: q.N = q.K; break; case 48: q.M = q.N; break; case 49: { q.M = q.N = q.K = std::min(q.K, (int)cbrt(l.flops)); c.label("square"); break; } }
  clamp_flops(q, l.flops);
  // now and then one dimension far longer than the others, around powers of two or anywhere
  if (l.longest && c.range(0, 699) == 699) {
    int w = c.range(0, 2), a = c.range(1, 4), b = c.chance(80) ? c.range(1, 5) : c.range(1, 20), n = gen_deep(c, 1000, l.longest);
    q.M = w == 0 ? n : a; q.N = w == 1 ? n : w == 0 ? a : b; q.K = w == 2 ? n : b;
    c.label("one long dimension");
  } else if (l.longest && c.range(0, 99) == 99) {                   // or longer than the limit, with the others as large as the work allows
    int w = c.range(0, 2), n = gen_deep(c, l.dim, std::min(l.longest, 30000)); double room = l.flops / n;
    int a = c.logrange(1, (int)std::max(1.0, std::min(room, (double)l.dim))), b = c.logrange(1, (int)std::max(1.0, std::min(room / a, (double)l.dim)));
    if (c.coin()) std::swap(a, b);
    q.M = w == 0 ? n : a; q.N = w == 1 ? n : w == 0 ? a : b; q.K = w == 2 ? n : b;
    c.label("dimension beyond the limit");
  } else if (l.longest && usual.wide > usual.flops && c.range(0, 599) == 599) {   // or two long dimensions, one several times the other
    int x = c.range(500, 900), y = c.range(4 * x + 1, std::max(4 * x + 1, 4000000 / x)), z = c.range(1, std::min(24, (int)(usual.wide / 2 / ((double)x * y)) + 1)), w = c.range(0, 5);
    if (x * (double)y <= usual.wide / 2) {
      q.M = w < 2 ? x : w < 4 ? y : z; q.N = w == 0 || w == 5 ? y : w == 2 || w == 4 ? x : z; q.K = w == 0 || w == 2 ? z : w == 1 || w == 4 ? y : x;
      c.label("two long dimensions");
    }
  }
  return q;
}

// Half of the calls spell every argument out, the others leave trailing arguments that have their
// documented default (no schedule, no tile, alpha 1, beta 0, plain operands) to the library's header.
static inline int trailing(const Prob& q, bool pa, bool pb) {
  if ((q.M + q.N + q.K + q.p) & 1) return 3;
  if (q.mcu || q.kcu || q.ncu) return 3;
  if (q.sch != NA) return 2;
  if (q.alpha != 1 || q.beta != 0) return 1;
  return pa || pb ? 1 : 0;
}
static inline double call(const Prob& q, cake_cntx_t* ctx, float* A, float* B, float* C, bool pa = 0, bool pb = 0) {
#define WITH_TILE(f, pa, pb) switch (trailing(q, pa, pb)) { \
    case 0: return f(A, B, C, q.M, q.N, q.K, q.p, ctx); \
    case 1: return f(A, B, C, q.M, q.N, q.K, q.p, ctx, NULL, pa, pb, q.alpha, q.beta); \
    case 2: return f(A, B, C, q.M, q.N, q.K, q.p, ctx, NULL, pa, pb, q.alpha, q.beta, q.sch); \
    default: return f(A, B, C, q.M, q.N, q.K, q.p, ctx, NULL, pa, pb, q.alpha, q.beta, q.sch, q.mcu, q.kcu, q.ncu); }
#define NO_TILE(f) switch (trailing(q, 0, 0)) { \
    case 0: return f(A, B, C, q.M, q.N, q.K, q.p, ctx); \
    case 1: return f(A, B, C, q.M, q.N, q.K, q.p, ctx, NULL, 0, 0, q.alpha, q.beta); \
    default: return f(A, B, C, q.M, q.N, q.K, q.p, ctx, NULL, 0, 0, q.alpha, q.beta, q.sch); }
  switch (q.e) {
    case E_1D: WITH_TILE(cake_sgemm, pa, pb)
    case E_ONLINE: WITH_TILE(cake_sgemm_online, 0, 0)
    case E_2D: WITH_TILE(cake_sgemm_2d, 0, 0)
    case E_TEST: NO_TILE(cake_sgemm_test)
    default: NO_TILE(cake_sgemm_2d_small)
  }
#undef WITH_TILE
#undef NO_TILE
}

// the planners as a user calls them: without a tile, half of the calls leave the tile arguments out
static inline void plan_blocks(const Prob& q, blk_dims_t* x, cake_cntx_t* ctx, enum sched sch) {
  if (!q.mcu && !q.kcu && !q.ncu && !((q.M + q.N + q.K + q.p) & 1)) init_block_dims(q.M, q.N, q.K, q.p, x, ctx, sch, NULL);
  else init_block_dims(q.M, q.N, q.K, q.p, x, ctx, sch, NULL, 4, q.mcu, q.kcu, q.ncu);
}

static inline void describe(Case& c, const Prob& q) {
  c.describe("%s sched=%s M=%d N=%d K=%d p=%d tile=%dx%d L1=%d L2=%d L3=%d cores=%d", ENTRY[q.e], q.e == E_1D ? SCHED[q.sch] : "-", q.M, q.N, q.K, q.p, q.hw.mr, q.hw.nr, q.hw.L1, q.hw.L2, q.hw.L3, q.hw.ncores);
  if (q.mcu) c.describe(" user_tile=%d,%d,%d", q.mcu, q.kcu, q.ncu);
  if (q.alpha != 1 || q.beta != 0) c.describe(" alpha=%g beta=%g", q.alpha, q.beta);
  c.describe(". ");
}

// the library's own plan, used only to classify cases
static inline blk_dims_t plan_of(const Prob& q) {
  blk_dims_t x; memset(&x, 0, sizeof x);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  if (q.e == E_2D) init_block_dims_2d(q.M, q.N, q.K, q.p, &x, &ctx, KMN, NULL, 4, q.mcu, q.kcu, q.ncu);
  else if (q.e == E_2DS) { init_block_dims_2d_small(q.M, q.N, q.K, q.p, &x, &ctx, KMN, NULL); x.Mb = x.Nb = 1; }
  else init_block_dims(q.M, q.N, q.K, q.p, &x, &ctx, (q.e == E_ONLINE || q.e == E_TEST) ? KMN : q.sch, NULL, 4, q.mcu, q.kcu, q.ncu);
  return x;
}

// returns true when the case exercises block structure: more than one block, or ragged edges
static inline bool classify(Case& c, const Prob& q, const blk_dims_t& x) {
  int multi = (x.Mb > 1) + (x.Nb > 1) + (x.Kb > 1);
  int ragged = (q.M % q.hw.mr != 0) + (q.N % q.hw.nr != 0);
  int pads = (x.m_pad != 0) + (x.n_pad != 0) + (x.k_pad != 0);
  c.label("entry=%s", ENTRY[q.e]);
  if (q.e == E_1D) c.label("planned=%s", SCHED[x.sch]);
  c.label("multi-block dims=%d", multi);
  c.label("ragged dims=%d", ragged);
  c.label("padded last blocks=%d", pads);
  if (q.mcu) c.label("user tile");
  c.label(q.p == 1 ? "p=1" : q.p <= 4 ? "p=2..4" : q.p <= 8 ? "p=5..8" : "p>8");
  if (q.e == E_2D) c.label("grid %s", x.pm > 1 && x.pn > 1 ? "pm,pn>1" : x.pm > 1 ? "pm x 1" : x.pn > 1 ? "1 x pn" : "1 x 1");
  return multi >= 1 && (ragged + pads) >= 1 && q.p > 1;
}

static inline bool same_bits(const float* a, const float* b, size_t n) { return memcmp(a, b, n * sizeof(float)) == 0; }

// exact comparison (-0 equals +0), reports the first differing element
static inline void expect_equal(Case& c, const float* C, const float* R, int M, int N, const char* what) {
  size_t bad = 0, first = 0;
  for (size_t i = 0; i < (size_t)M * N; i++) if (!(C[i] == R[i])) { if (!bad) first = i; bad++; }
  if (bad) c.fail("wrong result", "%s: %zu of %zu elements differ; first at (%zu,%zu): got %.9g, expected %.9g", what, bad, (size_t)M * N, first / N, first % N, C[first], R[first]);
}


// 64-byte aligned block with guard words on both sides (packed panels need the alignment)
struct ABuf {
  enum { G = 64 };
  char* raw; size_t n;
  ABuf(size_t n_, uint32_t fill = 0xFFC0DEADu) : n(n_) {
    raw = (char*)aligned_alloc(64, ((n + 2 * G) * 4 + 63) / 64 * 64);
    uint32_t* u = (uint32_t*)raw; for (size_t i = 0; i < n + 2 * G; i++) u[i] = 0xFFC0DEADu;
    if (fill != 0xFFC0DEADu) for (size_t i = 0; i < n; i++) u[G + i] = fill;
  }
  ABuf(const ABuf&) = delete;
  ~ABuf() { free(raw); }
  float* p() { return (float*)raw + G; }
  bool guards_ok() const {
    const uint32_t* u = (const uint32_t*)raw;
    for (size_t i = 0; i < G; i++) if (u[i] != 0xFFC0DEADu || u[G + n + i] != 0xFFC0DEADu) return false;
    return true;
  }
  float& operator[](size_t i) { return p()[i]; }
};

// plan of a 1-D problem made the way a user of the packing entry points makes it
static inline blk_dims_t plan1d(const Prob& q, enum sched sch) {
  blk_dims_t x; memset(&x, 0, sizeof x);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  plan_blocks(q, &x, &ctx, sch);
  return x;
}

// one dimension in the millions, the others tiny: where block counts and buffer sizes get large
static inline Prob gen_long(Case& c, Entry e, int cores) {
  Prob q; q.e = e;
  q.hw.L1 = c.pick({32, 48, 64}) << 10; q.hw.L2 = c.pick({256, 512, 1024, 64}) << 10; q.hw.L3 = c.pick({8, 20, 2}) << 20; q.hw.ncores = cores;
  q.p = c.range(1, 6); if (e == E_1D) q.sch = c.pick({KMN, MKN, NKM, NA});
  int which = c.range(0, 2), a = c.range(1, 3), b = c.chance(70) ? c.range(1, 3) : c.range(1, 8);
  int top = which == 2 ? 2500000 : 7000000, len = c.coin() ? c.range(top / 3, top) : c.logrange(1 << 18, top);
  if (which == 0) { q.M = len; q.N = a; q.K = b; } else if (which == 1) { q.N = len; q.M = a; q.K = b; } else { q.K = len; q.M = a; q.N = b; }
  c.label("long %c", "MNK"[which]);
  return q;
}
static inline void check_long(Case& c, const Prob& q) {
  uint32_t sa = c.seed() | 1;
  describe(c, q); c.describe("data seed %u", sa);
  c.nontrivial(q.p > 1);
  Buf A((size_t)q.M * q.K), B((size_t)q.K * q.N), C((size_t)q.M * q.N), R((size_t)q.M * q.N);
  fill_int(A.p(), A.n, sa); fill_int(B.p(), B.n, sa + 2);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  shim_reset(); shim_configure(0, sa, 0);
  call(q, &ctx, A.p(), B.p(), C.p());
  ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
  expect_equal(c, C.p(), R.p(), q.M, q.N, "C");
}

// ---------------------------------------------------------------- operands of gigabytes
// a read-only matrix of n floats whose contents repeat with a period that is no power of two: a small file mapped over and over
struct Periodic {
  enum { PER = 1025 * 1024 };
  float* a; size_t n, len;
  Periodic(size_t n_, uint32_t seed) : n(n_) {
    int fd = memfd_create("m", MFD_CLOEXEC); size_t per = PER * sizeof(float); len = (n * sizeof(float) + per - 1) / per * per;
    std::vector<float> v(PER); fill_int(v.data(), PER, seed); if (ftruncate(fd, per) || pwrite(fd, v.data(), per, 0) != (ssize_t)per) abort();
    char* base = (char*)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) abort();
    for (size_t o = 0; o < len; o += per) if (mmap(base + o, per, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
    close(fd); a = (float*)base;
  }
  ~Periodic() { munmap(a, len); }
};
// one such case at a time, whatever the number of workers
static int big_slot_fd = memfd_create("slot", MFD_CLOEXEC);
struct BigSlot {
  BigSlot() { if (pbt::g_beat()) while (lockf(big_slot_fd, F_TLOCK, 1)) { ++*pbt::g_beat(); usleep(50000); } }
  ~BigSlot() { if (pbt::g_beat()) (void)!lockf(big_slot_fd, F_ULOCK, 1); }
};

static inline Prob gen_big(Case& c, Entry e, int cores, double maxn, char& which) {
  Prob q; q.e = e;
  q.hw.L1 = c.pick({32, 48, 64}) << 10; q.hw.L2 = c.pick({256, 512, 1024, 2048}) << 10; q.hw.L3 = c.pick({8, 20, 36, 64}) << 20; q.hw.ncores = cores;
  q.p = c.range(1, 6); if (e == E_1D) q.sch = c.pick({KMN, MKN, NKM, NA});
  double n = (double)(1 << 29) * (1 + 1e-3) * (1 + c.range(0, 1000) / 1000.0 * (maxn / (double)(1 << 29) - 1.002));
  int small = c.range(1, 3); which = "ABC"[c.range(0, 2)];
  if (which == 'C') { q.K = small; q.M = c.logrange(64, 1 << 23); q.N = (int)(n / q.M); if (c.coin()) std::swap(q.M, q.N); }
  else { q.K = c.logrange(64, 1 << 20); int d = (int)(n / q.K); q.M = which == 'A' ? d : small; q.N = which == 'A' ? small : d; }
  c.label("big %c", which);
  return q;
}
__attribute__((optimize("O3"), target("avx2,fma"), noinline)) static void ref_row(const float* a, const float* B, float* r, long N, int K) {
  for (long j = 0; j < N; j++) r[j] = 0;
  for (int k = 0; k < K; k++) { float x = a[k]; const float* __restrict b = B + (size_t)k * N; for (long j = 0; j < N; j++) r[j] += x * b[j]; }
}
static inline void check_big(Case& c, Entry e, int cores) {
  char which; Prob q = gen_big(c, e, cores, pbt::g_tier_thorough() ? 1.4e9 : 1.12e9, which); uint32_t sa = c.seed() | 1;
  describe(c, q); c.describe("data seed %u, periodic", sa);
  c.nontrivial(q.p > 1);
  BigSlot slot; pbt::set_cpu_limit(150);
  Periodic A((size_t)q.M * q.K, sa), B((size_t)q.K * q.N, sa + 2); size_t cn = (size_t)q.M * q.N;
  float* C = (float*)mmap(nullptr, cn * 4 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (C == MAP_FAILED) { c.discard(); return; }
  memset(C, 0xFF, cn * 4);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  shim_reset(); shim_configure(0, sa, 0);
  call(q, &ctx, A.a, B.a, C);
  std::vector<float> r(q.N); size_t bad = 0, bi = 0, bj = 0; float got = 0, want = 0;
  for (size_t i = 0; i < (size_t)q.M; i++) {
    ref_row(A.a + i * q.K, B.a, r.data(), q.N, q.K);
    if (memcmp(r.data(), C + i * q.N, (size_t)q.N * 4)) for (int j = 0; j < q.N; j++) if (!(C[i * q.N + j] == r[j])) { if (!bad++) { bi = i; bj = j; got = C[i * q.N + j]; want = r[j]; } }
  }
  munmap(C, cn * 4 + 4096);
  if (bad) c.fail("wrong result", "C: %zu of %zu elements differ; first at (%zu,%zu): got %.9g, expected %.9g", bad, cn, bi, bj, got, want);
}
