// One library call with private inputs and a result vector, shared by the checks that repeat or overlap calls.
#pragma once
#include "cakegen.h"
#include "util.h"
template <class T> struct Al64 { typedef T value_type; Al64() {} template <class U> Al64(const Al64<U>&) {}
  T* allocate(size_t n) { return (T*)aligned_alloc(64, (n * sizeof(T) + 127) / 64 * 64); } void deallocate(T* p, size_t) { free(p); }
  template <class U> bool operator==(const Al64<U>&) const { return true; } template <class U> bool operator!=(const Al64<U>&) const { return false; } };
typedef std::vector<float, Al64<float>> AVec;

struct Job {
  AVec in1, in2; std::vector<float> out; int kind = 0; Prob q; int a = 0, b = 0, cc = 0, p = 1; blk_dims_t x; cake_cntx_t ctx; int ret = 0; std::vector<float> ref;
};
static const char* KIND[] = {"gemm", "pack A", "pack B", "pack C", "unpack C", "transpose", "checker", "pack_ob_B_parallel", "pack A blis", "pack B blis", "pre-packed gemm"};

static bool prepack_later = false;
static void prepack(Job& j) {         // the operands become packed ones
  Prob& q = j.q; memset(&j.x, 0, sizeof j.x); plan_blocks(q, &j.x, &j.ctx, q.sch);
  AVec P(cake_sgemm_packed_A_size(q.M, q.K, q.p, &j.x, &j.ctx, j.x.sch) / 4 + 16), R(cake_sgemm_packed_B_size(q.K, q.N, q.p, &j.x, &j.ctx) / 4 + 16);
  shim_reset(); shim_configure(0, 0, 1);
  if (j.a & 1) { pack_A(j.in1.data(), P.data(), q.M, q.K, q.p, &j.x, &j.ctx, j.x.sch); j.in1.swap(P); }
  if (j.a & 2) { pack_B(j.in2.data(), R.data(), q.K, q.N, q.p, &j.x, &j.ctx, j.x.sch); j.in2.swap(R); }
  shim_reset(); set_ctx(&j.ctx, q.hw);
}

static Job gen(Case& c, double flops, int dim, int maxp) {
  Job j; j.kind = c.weighted({60, 6, 6, 5, 6, 6, 4, 3, 2, 2, 5});
  Limits l; l.flops = flops; l.dim = dim; l.maxp = maxp; l.maxcores = 24; l.longest = flops < 5e5 ? 6000 : 100000; l.wide = flops < 5e5 ? 4e6 : 1e8;
  uint32_t s;
  if (j.kind == 0) {
    Entry e = c.pick({E_1D, E_1D, E_1D, E_ONLINE, E_2D, E_2DS, E_TEST});
    j.q = gen_prob(c, e, l, c.chance(30), TREE_NCORES);
    if (j.q.p == 1 && c.chance(80)) j.q.p = c.range(2, 6);
    if (c.chance(25)) { j.q.alpha = 2; j.q.beta = 1; }
    s = c.seed(); describe(c, j.q);
    c.nontrivial(classify(c, j.q, plan_of(j.q)));
    j.in1.resize((size_t)j.q.M * j.q.K); j.in2.resize((size_t)j.q.K * j.q.N); j.out.assign((size_t)j.q.M * j.q.N, 3.f); j.p = j.q.p;
    set_ctx(&j.ctx, j.q.hw);
  } else if (j.kind == 10) {
    j.q = gen_prob(c, E_1D, l, c.chance(30), 0); if (j.q.p == 1 && c.chance(80)) j.q.p = c.range(2, 6);
    if (c.chance(25)) { j.q.alpha = 2; j.q.beta = 1; }
    s = c.seed(); j.a = c.range(1, 3); describe(c, j.q); c.describe("packed %d", j.a); c.nontrivial(classify(c, j.q, plan_of(j.q)));
    j.in1.resize((size_t)j.q.M * j.q.K); j.in2.resize((size_t)j.q.K * j.q.N); j.out.assign((size_t)j.q.M * j.q.N, 3.f); j.p = j.q.p; set_ctx(&j.ctx, j.q.hw);
  } else if (j.kind <= 4 || j.kind >= 8) {
    j.q = gen_prob(c, E_1D, l, c.chance(30), 0);
    if (j.kind >= 8) j.q.sch = KMN;
    if (j.q.p == 1 && c.chance(80)) j.q.p = c.range(2, 6);
    s = c.seed(); set_ctx(&j.ctx, j.q.hw); memset(&j.x, 0, sizeof j.x);
    init_block_dims(j.q.M, j.q.N, j.q.K, j.q.p, &j.x, &j.ctx, j.q.sch, NULL, 4, j.q.mcu, j.q.kcu, j.q.ncu);
    describe(c, j.q); c.describe("%s planned %s", KIND[j.kind], SCHED[j.x.sch]);
    c.nontrivial(classify(c, j.q, j.x));
    Prob& q = j.q; j.p = q.p;
    size_t as = cake_sgemm_packed_A_size(q.M, q.K, q.p, &j.x, &j.ctx, j.x.sch) / 4, bs = cake_sgemm_packed_B_size(q.K, q.N, q.p, &j.x, &j.ctx) / 4, cs = cake_sgemm_packed_C_size(q.M, q.N, q.p, &j.x, &j.ctx, j.x.sch) / 4;
    size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N;
    switch (j.kind) { case 1: case 8: j.in1.resize(mk); j.out.assign(as, 3.f); break; case 2: case 9: j.in1.resize(kn); j.out.assign(bs, 3.f); break;
      case 3: j.in1.resize(mn); j.out.assign(cs, 3.f); break; default: j.in1.resize(cs); j.out.assign(mn, 3.f); }
  } else if (j.kind == 5) {
    j.a = c.range(1, 90); j.b = c.range(1, 90); j.p = c.range(2, 8); s = c.seed();
    static const int T[] = {8, 16, 24, 40, 3, 100};
    j.cc = T[c.range(0, 5)] | T[c.range(0, 5)] << 16;
    j.in1.resize((size_t)j.a * j.b); j.out.assign(j.in1.size(), 3.f); c.describe("transpose %d x %d tiles %d,%d", j.a, j.b, j.cc & 0xffff, j.cc >> 16); c.nontrivial(j.a > 8 && j.b > 8 && (j.a % 8 || j.b % 8));
  } else if (j.kind == 6) {
    j.a = c.range(1, 40); j.b = c.range(1, 30); j.cc = c.range(1, 30); j.p = c.range(2, 8); s = c.seed();
    j.in1.resize((size_t)j.a * j.cc); j.in2.resize((size_t)j.cc * j.b); j.out.assign((size_t)j.a * j.b, 3.f); c.describe("checker M=%d N=%d K=%d", j.a, j.b, j.cc); c.nontrivial(j.a > j.p);
  } else {
    int nr = NR_MIN; j.a = c.range(1, 40); j.b = c.range(1, 6 * nr); if (c.coin()) j.b = (j.b + nr - 1) / nr * nr; j.cc = nr; j.p = c.range(2, 8); s = c.seed();
    int nc = (j.b + nr - 1) / nr * nr;
    j.in1.resize((size_t)j.a * j.b); j.out.assign((size_t)j.a * nc, 3.f); c.describe("pack_ob_B_parallel K=%d N=%d", j.a, j.b); c.nontrivial(j.b > nr);
  }
  c.label("%s", KIND[j.kind]); c.describe(" p=%d seed %u. ", j.p, s);
  if (!j.in1.empty()) fill_int(j.in1.data(), j.in1.size(), s);
  if (!j.in2.empty()) fill_int(j.in2.data(), j.in2.size(), s ? s + 1 : 0);
  if (j.kind == 6) { ref_gemm(j.in1.data(), j.in2.data(), j.out.data(), j.a, j.b, j.cc); if (s & 1) j.out[s % j.out.size()] += 1; }
  if (j.kind == 10) { j.ref.resize(j.out.size()); ref_gemm(j.in1.data(), j.in2.data(), j.ref.data(), j.q.M, j.q.N, j.q.K); if (!prepack_later) prepack(j); }
  return j;
}

static std::vector<float> exec(const Job& j0) {
  struct { Prob q; blk_dims_t x; cake_cntx_t ctx; int a, b, cc, p, kind; } j = {j0.q, j0.x, j0.ctx, j0.a, j0.b, j0.cc, j0.p, j0.kind}; Prob& q = j.q;
  float *in1 = (float*)j0.in1.data(), *in2 = (float*)j0.in2.data();
  float* o = (float*)aligned_alloc(64, (j0.out.size() * 4 + 63) / 64 * 64); memcpy(o, j0.out.data(), j0.out.size() * 4);
  float r = 0;
  if (j.kind) omp_set_num_threads(j.p);
  switch (j.kind) {
    case 0: call(q, &j.ctx, in1, in2, o); break;
    case 1: pack_A(in1, o, q.M, q.K, q.p, &j.x, &j.ctx, j.x.sch); break;
    case 2: pack_B(in1, o, q.K, q.N, q.p, &j.x, &j.ctx, j.x.sch); break;
    case 3: pack_C(in1, o, q.M, q.N, q.p, &j.x, &j.ctx, j.x.sch); break;
    case 4: unpack_C(o, in1, q.M, q.N, q.p, &j.x, &j.ctx, j.x.sch); break;
    case 5: transpose_mat(in1, o, j.a, j.b, j.cc & 0xffff, j.cc >> 16); break;
    case 6: r = (float)cake_sgemm_checker(in1, in2, o, j.b, j.a, j.cc); break;
    case 7: pack_ob_B_parallel(in1, o, j.a, j.b, 0, j.a, (j.b + j.cc - 1) / j.cc * j.cc, j.cc, j.b % j.cc || (j.a & 1)); break;
    case 8: pack_A_single_buf_k_first_blis(in1, o, q.M, q.K, q.p, &j.x, &j.ctx); break;
    case 10: call(q, &j.ctx, in1, in2, o, j.a & 1, j.a >> 1); break;
    case 9: pack_B_k_first_blis(in1, o, q.K, q.N, &j.x, &j.ctx); break;
  }
  std::vector<float> v(o, o + j0.out.size()); v.push_back(r); free(o);
  return v;
}

