// BLIS-derived pack kernels, one panel at a time, against element-by-element packing.
#include "cakegen.h"
#include "arena.h"
#include <climits>
#ifdef USE_CAKE_ARMV8
#define PA bli_spackm_armv8a_int_8xk
#define PB bli_spackm_armv8a_int_12xk
static const int MA = 8, MB = 12; static const bool LDP = true;
#else
#define PA bli_spackm_haswell_asm_6xk_new
#define PB bli_spackm_haswell_asm_16xk_new
static const int MA = 6, MB = 16; static const bool LDP = false;
#endif
#ifdef USE_CAKE_ARMV8
#define WHOLE_INIT
#else
static void init_whole();
#define WHOLE_INIT init_whole();
#endif
static const int KMAX = 300, LDMAX = 420;
static Arena src, dst;
static void init() { src.make((size_t)LDMAX * KMAX * 4 + 65536); dst.make((size_t)(MB + 24) * KMAX * 4 + 65536); WHOLE_INIT }

static void panel(Case& c) {
  bool isb = c.coin(), row = c.coin(); int m = isb ? MB : MA, k = 0;
  switch (c.range(0, 2)) { case 0: k = c.range(1, 17); break; case 1: k = c.range(1, 70); break; default: k = c.logrange(1, KMAX); }
  int slack = c.pick({0, 0, 1, 2, 3, 7, 16, 50, 100}), ld = (row ? k : m) + slack;
  int ldp = LDP ? m + c.pick({0, 0, 1, 4, 5, 16}) : m; uint32_t s = c.seed(); bool end = c.coin(); int mode = c.range(0, 2);
  int inca = row ? ld : 1, lda = row ? 1 : ld;
  if (row && ld == 1) { row = false; lda = m; inca = 1; ld = m; }
  c.describe("%s panel %dx%d, %s storage, leading dimension %d, panel stride %d, data mode %d, at the %s of its page", isb ? "B" : "A", m, k, row ? "row" : "column", ld, ldp, mode, end ? "end" : "start");
  c.label("%s %s storage", isb ? "B" : "A", row ? "row" : "column"); c.label("k mod 8 = %d", k % 8); c.nontrivial(k > 8);
  size_t ns = (size_t)(m - 1) * inca + (size_t)(k - 1) * lda + 1, nd = (size_t)(k - 1) * ldp + m;
  src.place(ns * 4, end); dst.place(nd * 4, end);
  Rng r{s * 19ull + 1}; std::vector<uint32_t> S(ns), W(nd), D0(nd);
  for (auto& x : S) x = mode == 0 ? fbits((float)r.range(1, 1 << 20)) : mode == 1 ? r.next() : fbits((float)(&x - &S[0]));
  for (auto& x : D0) x = 0xFFBAD000u + (r.next() & 255);
  W = D0;
  for (int q = 0; q < k; q++) for (int i = 0; i < m; i++) W[(size_t)q * ldp + i] = S[(size_t)i * inca + (size_t)q * lda];
  memcpy(src.at, S.data(), ns * 4); memcpy(dst.at, D0.data(), nd * 4);
  float kappa = 1.0f;
  (isb ? PB : PA)(m, k, &kappa, src.f(), inca, lda, dst.f(), ldp);
  for (size_t i = 0; i < nd; i++) { uint32_t g; memcpy(&g, dst.at + 4 * i, 4);
    if (g != W[i]) c.fail("wrong panel", "%s panel k=%d: element (%zu,%zu) is %08x, expected %08x", isb ? "B" : "A", k, i % ldp, i / ldp, g, W[i]); }
  if (memcmp(src.at, S.data(), ns * 4)) c.fail("source modified", "the source tile changed");
  if (!src.intact() || !dst.intact()) c.fail("wrote outside the panel", "pattern changed");
  if (ldp == m && ((isb && !row) || (!isb && row))) {                 // the plain packers, in the orders the library uses
    memcpy(dst.at, D0.data(), nd * 4);
    if (isb) pack_B_nr_x_kc(src.f(), dst.f(), lda, k, m); else pack_A_mr_x_kc(src.f(), dst.f(), inca, k, m);
    for (size_t i = 0; i < nd; i++) { uint32_t g; memcpy(&g, dst.at + 4 * i, 4); if (g != W[i]) c.fail("wrong panel", "plain packer %s k=%d: element (%zu,%zu) is %08x, expected %08x", isb ? "B" : "A", k, i % ldp, i / ldp, g, W[i]); }
    if (!src.intact() || !dst.intact()) c.fail("wrote outside the panel", "pattern changed");
    c.label("plain packer compared");
  }
}

// tiles of matrices too large to hold: only the pages of the tile exist, everything between them traps
static void strided(Case& c) {
  bool isb = c.coin(), row = c.coin(), packer = c.coin(); int m = isb ? MB : MA, k = row ? gen_deep(c, 1, 4000) : c.range(1, 48);
  if (packer) row = !isb;                                             // the order the plain packers take
  if (!row && k > 48) k = 1 + k % 48;
  int segs = row ? m : k, seg = row ? k : m, top = (int)std::min<long>(INT_MAX, ((1l << 31) - 1 - seg) / std::max(1, segs - 1)), ld = gen_deep(c, std::max(seg, 1000), std::max(top, std::max(seg, 1000))); uint32_t s = c.seed();
  if ((long)ld * (segs - 1) + seg >= 1l << 31) ld = top;
  if (ld < 2) ld = 2;
  c.describe("%s panel %dx%d, %s storage, leading dimension %d%s", isb ? "B" : "A", m, k, row ? "row" : "column", ld, packer ? ", plain packer" : ""); c.label("far apart"); c.label((long)ld * (segs - 1) * 4 >= 1l << 31 ? "more than 2 GB apart" : "less than 2 GB apart"); c.nontrivial(k > 8);
  size_t len = (((size_t)ld * (segs - 1) + seg) * 4 + 4095) / 4096 * 4096 + 8192; char* raw = (char*)mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (raw == MAP_FAILED) { c.discard(); return; }
  // the last element ends at an inaccessible page
  char* base = raw + len - 4096 - ((size_t)ld * (segs - 1) + seg) * 4;
  auto pages = [&](int i, int prot) { uintptr_t a = (uintptr_t)(base + (size_t)i * ld * 4) & ~4095ul, e = ((uintptr_t)(base + ((size_t)i * ld + seg) * 4) + 4095) & ~4095ul; return mprotect((void*)a, e - a, prot); };
  for (int i = 0; i < segs; i++) if (pages(i, PROT_READ | PROT_WRITE)) { munmap(raw, len); c.discard(); return; }
  Rng r{s * 29ull + 3}; std::vector<uint32_t> W((size_t)m * k);
  for (int i = 0; i < segs; i++) for (int j = 0; j < seg; j++) { uint32_t v = r.next(); memcpy(base + ((size_t)i * ld + j) * 4, &v, 4); int x = row ? i : j, q = row ? j : i; W[(size_t)q * m + x] = v; }
  for (int i = 0; i < segs; i++) pages(i, PROT_READ);
  Arena out; out.make(W.size() * 4 + 4096); out.place(W.size() * 4, true); memset(out.at, 0x5A, W.size() * 4);
  float kappa = 1.0f; float* src = (float*)base;
  if (packer) { if (isb) pack_B_nr_x_kc(src, out.f(), ld, k, m); else pack_A_mr_x_kc(src, out.f(), ld, k, m); }
  else (isb ? PB : PA)(m, k, &kappa, src, row ? ld : 1, row ? 1 : ld, out.f(), m);
  if (memcmp(out.at, W.data(), W.size() * 4)) { size_t i = 0; while (!memcmp(out.at + 4 * i, &W[i], 4)) i++; uint32_t g; memcpy(&g, out.at + 4 * i, 4); c.fail("wrong panel", "%s panel k=%d: element (%zu,%zu) is %08x, expected %08x", isb ? "B" : "A", k, i % m, i / m, g, W[i]); }
  if (!out.intact()) c.fail("wrote outside the panel", "pattern changed");
  out.drop(); munmap(raw, len);
}

#ifndef USE_CAKE_ARMV8
// all panels of a matrix whose height is a multiple of the panel's, packed in parallel
extern void pack_test1(float*, float*, int, int, int, cake_cntx_t*) __attribute__((weak));
static Arena wsrc, wdst;
static void init_whole() { wsrc.make(MA * 9 * KMAX * 4 + 65536); wdst.make(MA * 9 * KMAX * 4 + 65536); }
static void whole(Case& c) {
  if (!pack_test1) { c.nontrivial(false); return; }
  int np = c.range(1, 9), M = MA * np, K = c.coin() ? c.range(1, 40) : c.logrange(1, KMAX), p = c.range(1, 6); uint32_t s = c.seed();
  c.describe("pack_test1 %dx%d, %d threads", M, K, p); c.label("whole matrix"); c.nontrivial(np > 1 && K > 8);
  size_t n = (size_t)M * K; wsrc.place(n * 4, c.coin()); wdst.place(n * 4, c.coin());
  Rng r{s * 23ull + 5}; std::vector<uint32_t> S(n); for (auto& x : S) x = r.next() & 0xBFFFFFFFu;
  memcpy(wsrc.at, S.data(), n * 4); memset(wdst.at, 0x5A, n * 4);
  Hw h; h.mr = MA; h.nr = MB; cake_cntx_t ctx; set_ctx(&ctx, h);
  omp_set_num_threads(p);
  pack_test1(wsrc.f(), wdst.f(), M, K, p, &ctx);
  for (int t = 0; t < np; t++) for (int q = 0; q < K; q++) for (int i = 0; i < MA; i++) {
    uint32_t g, w = S[(size_t)(t * MA + i) * K + q]; memcpy(&g, wdst.at + 4 * ((size_t)t * MA * K + (size_t)q * MA + i), 4);
    if (g != w) c.fail("wrong panel", "pack_test1: panel %d element (%d,%d) is %08x, expected %08x", t, i, q, g, w);
  }
  if (memcmp(wsrc.at, S.data(), n * 4)) c.fail("source modified", "the source changed");
  if (!wsrc.intact() || !wdst.intact()) c.fail("wrote outside the panel", "pattern changed");
}
#endif

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C15";
  cfg.rule = "a case packs one panel whose source and destination end (or start) at an inaccessible page, bit for bit against element-by-element packing; non-trivial = k larger than the unroll factor";
  cfg.arms = {{"panel", panel, 1500000, 15000000}, {"strided", strided, 12000, 200000}};
#ifndef USE_CAKE_ARMV8
  cfg.arms.push_back({"whole matrix", whole, 60000, 600000});
#endif
  cfg.init = init;
  return pbt::main_impl(argc, argv, cfg);
}
