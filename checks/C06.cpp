// Histories on a shared context against the same calls made alone in a fresh process.
#include "cakegen.h"

enum Kind { GEMM, PACKED, TILE, TRANSPOSE, PLAN, CHECK, PACK, HWSET, RESTORE, ADDCHK, NKIND };
static const char* KN[] = {"gemm", "prepacked gemm", "set tile", "transpose", "plan", "checker", "pack", "set caches", "pack and unpack C", "add checker"};

struct Op { int kind = GEMM, ctx = 0, flags = 0; Prob q; uint32_t sa = 0, sb = 0; int off = 0, wrong = 0, sub = 0; };

static const size_t ARENA = 1 << 20;          // floats per operand
static const size_t OUT = 900 * 1024;         // bytes of result per operation
static const int MAXOPS = 8;
struct Slot { volatile int done; size_t len; char data[OUT]; };
static Slot* g_slots[2];                      // [0] history, [1] alone; shared with the children
static float *g_a, *g_b, *g_c;

static void init() {
  for (auto& s : g_slots) s = (Slot*)mmap(0, sizeof(Slot) * MAXOPS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char* m = (char*)mmap(0, 3 * ARENA * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_a = (float*)m; g_b = g_a + ARENA; g_c = g_b + ARENA;
}

static void fill_real(float* a, size_t n, uint32_t s) { Rng r{s * 977ull + 5}; for (size_t i = 0; i < n; i++) a[i] = r.range(-1 << 22, 1 << 22) * 3.1e-7f; }

static void put(Slot* s, const void* p, size_t n) { n = std::min(n, OUT - s->len); memcpy(s->data + s->len, p, n); s->len += n; }

static void run_op(const Op& o, cake_cntx_t* ctx, Slot* s) {
  s->len = 0;
  const Prob& q = o.q;
  float *A = g_a + o.off, *B = g_b + o.off, *C = g_c;
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N;
  switch (o.kind) {
    case GEMM: {
      fill_real(A, mk, o.sa); fill_real(B, kn, o.sb); fill_real(C, mn, o.sa ^ 77);
      call(q, ctx, A, B, C);
      put(s, C, mn * 4); put(s, A, std::min<size_t>(mk * 4, 4096)); put(s, B, std::min<size_t>(kn * 4, 4096));
      break;
    }
    case PACKED: {
      fill_real(A, mk, o.sa); fill_real(B, kn, o.sb); fill_real(C, mn, o.sa ^ 77);
      blk_dims_t x; memset(&x, 0, sizeof x);
      plan_blocks(q, &x, ctx, q.sch);
      ABuf Ap(cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, ctx, x.sch) / 4), Bp(cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, ctx) / 4);
      pack_A(A, Ap.p(), q.M, q.K, q.p, &x, ctx, x.sch); pack_B(B, Bp.p(), q.K, q.N, q.p, &x, ctx, x.sch);
      call(q, ctx, o.flags & 1 ? Ap.p() : A, o.flags & 2 ? Bp.p() : B, C, o.flags & 1, (o.flags & 2) != 0);
      put(s, C, mn * 4);
      break;
    }
    case TILE: update_mr_nr(ctx, q.hw.mr, q.hw.nr); break;
    case HWSET: ctx->L1 = q.hw.L1; ctx->L2 = q.hw.L2; ctx->L3 = q.hw.L3; break;
    case TRANSPOSE: {
      fill_real(A, mn, o.sa); fill_real(C, mn, 3);
      transpose_mat(A, C, q.M, q.N, q.N, q.M);
      put(s, C, mn * 4);
      break;
    }
    case PLAN: {
      blk_dims_t x; memset(&x, 0, sizeof x);
      if (q.e == E_2D) init_block_dims_2d(q.M, q.N, q.K, q.p, &x, ctx, q.sch, NULL, 4, q.mcu, q.kcu, q.ncu);
      else if (q.e == E_2DS) init_block_dims_2d_small(q.M, q.N, q.K, q.p, &x, ctx, q.sch, NULL);
      else plan_blocks(q, &x, ctx, q.sch);
      put(s, &x, sizeof x);
      int v[4] = {(int)set_schedule(q.sch, q.M, q.N, q.K), q.p <= TREE_NCORES ? grid_dims_2d(q.M, q.N, q.K, q.p, TREE_NCORES) : 0, lcm(q.M, q.N), 0};
      cache_dims_t* d = get_cache_dims(q.M, q.N, q.K, q.p, ctx, q.sch, NULL, 4, q.mcu, q.kcu, q.ncu);
      v[3] = d->sch; int w[3] = {d->m_c, d->k_c, d->n_c}; free(d);
      put(s, v, sizeof v); put(s, w, sizeof w);
      break;
    }
    case CHECK: {
      fill_int(A, mk, o.sa + 1); fill_int(B, kn, o.sb + 1);
      ref_gemm(A, B, C, q.M, q.N, q.K);
      if (o.wrong >= 0) C[o.wrong % mn] += 40;
      int v = cake_sgemm_checker(A, B, C, q.N, q.M, q.K);
      put(s, &v, sizeof v);
      ref_gemm(A, B, g_a + ARENA / 2, q.M, q.N, q.K);
      v = mat_equals(C, g_a + ARENA / 2, q.M, q.N); put(s, &v, sizeof v);
      break;
    }
    case PACK: {
      fill_real(A, mk, o.sa); fill_real(B, kn, o.sb);
      blk_dims_t x; memset(&x, 0, sizeof x);
      plan_blocks(q, &x, ctx, q.sch);
      size_t an = cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, ctx, x.sch), bn = cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, ctx);
      ABuf Ap(an / 4, 0), Bp(bn / 4, 0);
      pack_A(A, Ap.p(), q.M, q.K, q.p, &x, ctx, x.sch); pack_B(B, Bp.p(), q.K, q.N, q.p, &x, ctx, x.sch);
      put(s, Ap.p(), an / 2); put(s, Bp.p(), bn / 2);
      break;
    }
    case RESTORE: {
      fill_real(C, mn, o.sa);
      blk_dims_t x; memset(&x, 0, sizeof x);
      plan_blocks(q, &x, ctx, q.sch);
      ABuf Cp(cake_sgemm_packed_C_size(q.M, q.N, q.p, &x, ctx, x.sch) / 4, 0);
      pack_C(C, Cp.p(), q.M, q.N, q.p, &x, ctx, x.sch); fill_real(A, mn, 9); unpack_C(A, Cp.p(), q.M, q.N, q.p, &x, ctx, x.sch);
      put(s, A, mn * 4);
      break;
    }
    case ADDCHK: {
      fill_int(A, mn, o.sa + 1); fill_int(B, mn, o.sb + 1); fill_int(C, mn, o.sa + 2);
      float* in[3] = {A, B, C}; float* sum = g_a + ARENA / 2; for (size_t i = 0; i < mn; i++) sum[i] = A[i] + B[i] + C[i];
      if (o.wrong >= 0) sum[o.wrong % mn] += 40;
      int v = add_checker(in, sum, q.M, q.N, 3); put(s, &v, sizeof v);
      break;
    }
  }
  s->done = 1;
}

struct Want { Hw hw; };

static bool ctx_ok(const cake_cntx_t& c, const Hw& h) {
  return c.L1 == h.L1 && c.L2 == h.L2 && c.L3 == h.L3 && c.ncores == h.ncores && c.mr == h.mr && c.nr == h.nr && c.blis_cntx == NULL &&
         c.peak_dram_bw == 32e9 && c.peak_flops == 600e9 && c.m_map == (h.mr - MR_MIN) / MR_FACT && c.n_map == (h.nr - NR_MIN) / NR_FACT;
}

template <class F> static int in_child(F f) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, 0);
    _exit(f());
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return st;
}

static void history(Case& c) {
  int nctx = c.chance(25) ? 2 : 1, n = c.range(2, c.chance(70) ? 4 : MAXOPS);
  Hw base[2], cur[2];
  for (int i = 0; i < nctx; i++) { base[i] = gen_hw(c, 24, false); if (c.chance(65)) base[i].ncores = TREE_NCORES; cur[i] = base[i]; c.describe("ctx%d L1=%d L2=%d L3=%d cores=%d. ", i, base[i].L1, base[i].L2, base[i].L3, base[i].ncores); }
  std::vector<Op> ops; std::vector<Hw> before, after;
  int sticky = c.range(0, 3);                // 0: independent shapes, otherwise shapes repeat often
  for (int i = 0; i < n; i++) {
    Op o; o.ctx = nctx == 2 ? c.range(0, 1) : 0;
    o.kind = c.weighted({10, 4, 3, 2, 3, 1, 2, 2, 1, 1});
    Hw& h = cur[o.ctx];
    before.push_back(h);
    Limits l; l.flops = 2e5; l.dim = 260; l.maxp = 8; l.wide = 0; l.longest = 20000;
    if (o.kind == TILE || o.kind == HWSET) {
      Hw g = gen_hw(c, 24, true);
      if (o.kind == TILE) { h.mr = g.mr; h.nr = g.nr; int l2 = 8 * (h.mr * h.mr + 2 * h.mr * h.nr) + 64, l1 = 4 * (h.mr * h.nr + h.mr + h.nr) + 64; if (h.L2 < l2 || h.L1 < l1) { h = before.back(); o.kind = PLAN; } }
      else { int l2 = 8 * (h.mr * h.mr + 2 * h.mr * h.nr) + 64, l1 = 4 * (h.mr * h.nr + h.mr + h.nr) + 64; h.L2 = std::max(l2, g.L2); h.L1 = std::max(l1, g.L1); h.L3 = g.L3; }
      o.q.hw = h;
    }
    if (o.kind != TILE && o.kind != HWSET) {
      int prev = -1;
      for (int k = i - 1; k >= 0; k--) if (ops[k].kind != TILE && ops[k].kind != HWSET) { prev = k; break; }
      bool again = prev >= 0 && sticky && c.chance(55);
      static const Entry es[] = {E_1D, E_1D, E_1D, E_ONLINE, E_2D, E_2DS, E_TEST};
      Entry e = o.kind == GEMM || o.kind == PLAN ? es[c.range(0, 6)] : E_1D;
      if (again) {                            // same shape as before, something else changed
        o.q = ops[prev].q; o.sa = ops[prev].sa; o.sb = ops[prev].sb; o.off = ops[prev].off;
        o.q.hw = h; if (o.kind == GEMM || o.kind == PLAN) { if (c.coin()) o.q.e = e; } else o.q.e = E_1D;
        if (o.q.mcu) { o.q.mcu = h.mr * std::max(1, o.q.mcu / h.mr); o.q.ncu = h.nr * std::max(1, o.q.ncu / h.nr); }
        switch (c.range(0, 9)) {
          case 0: o.sb = c.seed(); break;
          case 1: o.sa = c.seed(); break;
          case 2: o.q.p = c.range(1, 8); break;
          case 3: o.q.sch = c.pick({KMN, MKN, NKM, NA}); break;
          case 4: o.q.M = std::max(1, o.q.M - c.range(0, 9)); break;
          case 5: o.q.N = std::max(1, o.q.N - c.range(0, 17)); break;
          case 6: o.q.K = std::max(1, o.q.K - c.range(0, 9)); break;
          case 7: o.q.mcu = h.mr * c.range(1, 4); o.q.kcu = c.range(1, 40); o.q.ncu = h.nr * c.range(1, 3); break;
          case 8: o.q.alpha = c.pick({1.f, 2.f, -0.5f}); o.q.beta = c.pick({0.f, 1.f, 0.25f}); break;
          default: o.q.mcu = o.q.kcu = o.q.ncu = 0; break;
        }
      } else {
        Hw keep = h;
        o.q = gen_prob(c, e, l, false, TREE_NCORES); o.q.hw = keep;
        if (o.q.mcu) { o.q.mcu = keep.mr * c.range(1, 4); o.q.ncu = keep.nr * c.range(1, 3); }
        if (o.q.e != E_1D && o.kind == GEMM) o.q.sch = NA;
        o.sa = c.seed(); o.sb = c.seed(); o.off = c.chance(30) ? c.range(1, 40) : 0;
        if (c.chance(15)) { o.q.alpha = c.pick({2.f, -0.5f}); o.q.beta = c.pick({0.f, 1.f}); }
      }
      if (o.kind == PACKED) o.flags = c.range(1, 3);
      if (o.kind == CHECK || o.kind == ADDCHK) o.wrong = c.coin() ? -1 : (int)c.seed();
    }
    after.push_back(h);
    c.describe("%d:%s", i, KN[o.kind]); if (nctx > 1) c.describe("@%d", o.ctx);
    if (o.kind == TILE) c.describe(" %dx%d", h.mr, h.nr);
    else if (o.kind == HWSET) c.describe(" L2=%d L3=%d", h.L2, h.L3);
    else { c.describe(" %s %s %dx%dx%d p=%d", ENTRY[o.q.e], SCHED[o.q.sch], o.q.M, o.q.N, o.q.K, o.q.p); if (o.q.mcu) c.describe(" t%d,%d,%d", o.q.mcu, o.q.kcu, o.q.ncu); }
    c.describe("; ");
    c.label("op=%s", KN[o.kind]);
    ops.push_back(o);
  }
  int order = c.range(0, 1);
  bool nt = false; for (int i = 1; i < n; i++) nt |= ops[i].kind <= PACKED && ops[i - 1].kind != CHECK;
  c.nontrivial(nt); c.label("history length %d", n); if (nctx > 1) c.label("two contexts");

  for (int i = 0; i < n; i++) g_slots[0][i].done = g_slots[1][i].done = 0;
  int hs = in_child([&] {                     // the history, one process, shared contexts
    cake_cntx_t ctx[2]; for (int i = 0; i < nctx; i++) set_ctx(&ctx[i], base[i]);
    shim_reset(); shim_configure(order, 1, 0);
    for (int i = 0; i < n; i++) {
      run_op(ops[i], &ctx[ops[i].ctx], &g_slots[0][i]);
      g_slots[0][i].done = 2 + ctx_ok(ctx[ops[i].ctx], after[i]);
    }
    return 0; });
  for (int i = 0; i < n; i++) {
    if (ops[i].kind == TILE || ops[i].kind == HWSET) { if (g_slots[0][i].done == 2) c.fail("context changed", "after operation %d", i); continue; }
    int fs = in_child([&] {                   // the call alone
      cake_cntx_t ctx; set_ctx(&ctx, before[i]);
      shim_reset(); shim_configure(order, 1, 0);
      run_op(ops[i], &ctx, &g_slots[1][i]); return 0; });
    Slot &h = g_slots[0][i], &f = g_slots[1][i];
    if (!!h.done != !!f.done) c.fail("call ends differently after earlier calls", "operation %d: %s in the history, %s alone (status %d, %d)", i, h.done ? "returns" : "does not return", f.done ? "returns" : "does not return", hs, fs);
    if (!f.done) return;                      // fails on its own: not this property's business
    if (h.done == 2) c.fail("context changed", "hardware description or register tile differ after operation %d", i);
    if (h.len != f.len) c.fail("result depends on earlier calls", "operation %d (%s): result sizes %zu and %zu", i, KN[ops[i].kind], h.len, f.len);
    if (memcmp(h.data, f.data, h.len)) {
      size_t k = 0; while (h.data[k] == f.data[k]) k++;
      c.fail("result depends on earlier calls", "operation %d (%s): byte %zu of %zu differs (word %08x in the history, %08x alone)", i, KN[ops[i].kind], k, h.len, ((uint32_t*)h.data)[k / 4], ((uint32_t*)f.data)[k / 4]);
    }
  }
}

// one to three calls, repeated in turn tens to thousands of times in one process
static void many(Case& c) {
  int n = c.range(1, 3), total = c.logrange(20, c.chance(90) ? 1500 : 70000);
  std::vector<Op> ops; std::vector<Hw> hw;
  double w = 1;
  for (int i = 0; i < n; i++) {
    static const int kinds[] = {GEMM, GEMM, GEMM, PACKED, TRANSPOSE, PLAN, CHECK, PACK, RESTORE, ADDCHK};
    Op o; o.kind = kinds[c.range(0, 9)]; Limits l; l.flops = total > 1500 ? 300 : 5e3; l.dim = 40; l.maxp = 6; l.longest = 0;
    static const Entry es[] = {E_1D, E_1D, E_1D, E_ONLINE, E_2D, E_2DS, E_TEST};
    o.q = gen_prob(c, o.kind == GEMM || o.kind == PLAN ? es[c.range(0, 6)] : E_1D, l, false, TREE_NCORES);
    if (o.q.e != E_1D && o.kind == GEMM) o.q.sch = NA;
    o.sa = c.seed(); o.sb = c.seed(); if (o.kind == PACKED) o.flags = c.range(1, 3); if (o.kind == CHECK || o.kind == ADDCHK) o.wrong = c.coin() ? -1 : (int)c.seed();
    c.describe("%s %s %s %dx%dx%d p=%d; ", KN[o.kind], ENTRY[o.q.e], SCHED[o.q.sch], o.q.M, o.q.N, o.q.K, o.q.p); c.label("repeated %s", KN[o.kind]);
    w = std::max(w, (double)o.q.M * o.q.N * o.q.K + 1e2 * o.q.p);
    ops.push_back(o); hw.push_back(o.q.hw);
  }
  total = std::max(20, (int)std::min<double>(total, 2e7 / w));
  c.describe("%d calls", total); c.label("calls %s", total > 5000 ? ">5000" : total > 500 ? ">500" : "<=500"); c.nontrivial(total > n);
  for (int i = 0; i < n; i++) {
    g_slots[0][i].done = g_slots[1][i].done = 0;
    in_child([&] { cake_cntx_t ctx; set_ctx(&ctx, hw[i]); shim_reset(); shim_configure(0, 1, 0); run_op(ops[i], &ctx, &g_slots[1][i]); return 0; });
    if (!g_slots[1][i].done) return;
  }
  int* at = (int*)(g_slots[0][MAXOPS - 1].data); *at = -1; volatile int* done = &g_slots[0][MAXOPS - 1].done; *done = 0;
  in_child([&] {
    std::vector<cake_cntx_t> ctx(n); for (int i = 0; i < n; i++) set_ctx(&ctx[i], hw[i]);
    shim_reset(); shim_configure(0, 1, 0);
    for (int k = 0; k < total; k++) {
      Slot &h = g_slots[0][k % n], &f = g_slots[1][k % n];
      *at = k; run_op(ops[k % n], &ctx[k % n], &h);
      if (h.len != f.len || memcmp(h.data, f.data, h.len) || !ctx_ok(ctx[k % n], hw[k % n])) return 1;
    }
    *done = 1; return 0; });
  if (!*done) c.fail("result depends on earlier calls", "call %d of %d (%s) gives another result than the same call alone, or does not return", *at, total, KN[ops[*at % n].kind]);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C06";
  cfg.rule = "a case is a history of 2-8 operations (multiplications through every entry point, pre-packed multiplications, packing, planning, tile and cache changes, transposes, checker calls) over one or two contexts at reused addresses, run in one process, and each operation run alone in a fresh process with an equal fresh context; results compared byte for byte; or one to three operations repeated in turn up to 70000 times in one process; non-trivial = a multiplication preceded by another library operation";
  cfg.arms = {{"history", history, 100000, 1500000}, {"many", many, 4000, 40000}};
  cfg.init = init;
  return pbt::main_impl(argc, argv, cfg);
}
