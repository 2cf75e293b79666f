// The PyTorch extension's forward and backward against their definitions, through a strided stub tensor.
#include "cakegen.h"
#include <torch/extension.h>
#include <malloc.h>
using at::Tensor;
void extension_init(pybind11::module_& m);

#ifndef NOLEDGER
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static long live = 0;
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); live += p != 0; return p; }
void free(void* p) { live -= p != 0; __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); live += p != 0; return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); live += (p != 0) - (q != 0); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); live += p != 0; return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
}
#else
static long live = 0;
#endif

static pybind11::module_* mod;
static void init() { mod = new pybind11::module_; extension_init(*mod); }
static pybind11::Fn& fn(Case& c, const char* n) { for (auto& f : mod->fns) if (f.name == n) return f; c.fail("extension", "no function called %s", n); __builtin_unreachable(); }

// a tensor of the wanted shape, stored in one of several ways; `keep` gets the storage owner
struct Arg { Tensor t; std::vector<float> before; };
static const char* LAY[] = {"contiguous", "transposed storage", "every other column", "offset slice", "every other row", "padded rows", "expanded"};
static Arg make(Case& c, std::vector<int64_t> s, uint32_t seed, int mode, int& lay) {
  Tensor base; Arg a; lay = c.chance(45) ? 0 : c.range(1, s.size() == 2 ? 6 : 3);
  if (s.size() == 2) {
    switch (lay) {
      case 1: base = at::empty({s[1], s[0]}); a.t = base.t(); break;
      case 2: base = at::empty({s[0], 2 * s[1]}); a.t = base.slice(1, c.range(0, 1), 2 * s[1], 2).slice(1, 0, s[1]); break;
      case 3: base = at::empty({s[0] + 3, s[1]}); a.t = base.slice(0, 2, s[0] + 2); break;
      case 4: base = at::empty({2 * s[0], s[1]}); a.t = base.slice(0, 0, 2 * s[0], 2); break;
      case 5: base = at::empty({s[0], s[1] + 5}); a.t = base.slice(1, 3, s[1] + 3); break;
      case 6: base = at::empty({1, s[1]}); a.t = base.expand({s[0], s[1]}); break;
      default: base = at::empty({s[0], s[1]}); a.t = base; break;
    }
  } else {
    switch (lay) {
      case 2: base = at::empty({2 * s[0]}); a.t = base.slice(0, 0, 2 * s[0], 2); break;
      case 1: base = at::empty({s[0], 3}); a.t = base.select(1, 1); break;
      case 3: base = at::empty({s[0] + 3}); a.t = base.slice(0, 3, s[0] + 3); break;
      default: base = at::empty({s[0]}); a.t = base; break;
    }
  }
  Rng r{seed * 77ull + 5}; float* p = (float*)base.data_ptr(); int64_t n = base.numel();
  for (int64_t i = 0; i < n; i++) p[i] = mode == 0 ? (float)(r.range(1, 8) - (r.range(0, 1) ? 9 : 0)) : (float)(r.range(-1000000, 1000000) * 1e-6) * (mode == 2 ? exp2f((float)r.range(-20, 20)) : 1);
  a.before.assign(p, p + n);
  return a;
}
static void unchanged(Case& c, const Arg& a, const char* what, std::vector<int64_t> s) {
  if (memcmp(a.t.st->p, a.before.data(), a.before.size() * 4)) c.fail("input modified", "%s was modified", what);
  if (a.t.sizes() != at::IntArrayRef(s)) c.fail("input modified", "%s has changed shape", what);
}
static void shape(Case& c, const Tensor& t, std::vector<int64_t> s, const char* what) {
  if (!t.defined()) c.fail("undefined result", "%s is undefined", what);
  std::string g; for (auto x : t.sizes()) g += std::to_string(x) + " "; std::string w; for (auto x : s) w += std::to_string(x) + " ";
  if (g != w) c.fail("wrong shape", "%s has shape [%s], expected [%s]", what, g.c_str(), w.c_str());
  if (t.scalar_type() != at::kFloat) c.fail("wrong type", "%s is not a float tensor", what);
}
// want = sum_k x(i,k)*y(k,j) (+ z(j)), within the rounding of K products; integers are exact
struct Ref { int64_t m, n; std::vector<double> v, mag; };
template <class X, class Y, class Z> static Ref ref(int64_t m, int64_t n, int64_t k, X x, Y y, Z z) {
  Ref r{m, n, std::vector<double>(m * n), std::vector<double>(m * n)};
  for (int64_t i = 0; i < m; i++) for (int64_t q = 0; q < k; q++) { double a = x(i, q); for (int64_t j = 0; j < n; j++) { double p = a * y(q, j); r.v[i * n + j] += p; r.mag[i * n + j] += fabs(p); } }
  for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < n; j++) { double b = z(j); r.v[i * n + j] += b; r.mag[i * n + j] += fabs(b); }
  return r;
}
static void match(Case& c, const Tensor& t, const Ref& r, int64_t k, const char* what, const char* when, bool ints) {
  std::vector<int64_t> ix(t.dim(), 0); int64_t i = 0;
  t.each([&](int64_t o) {
    double g = t.load(o), w = r.v[i], tol = ints ? 0 : r.mag[i] * (k + 4) * 6e-8 + 1e-30;
    if (!(fabs(g - w) <= tol)) c.fail("wrong value", "%s%s: element %ld of %ldx%ld is %.9g, expected %.9g", what, when, (long)i, (long)r.m, (long)r.n, g, w);
    i++; });
}
static float at2(const Tensor& t, int64_t i, int64_t j) { return ((float*)t.st->p)[t.off + i * t.sr[0] + j * t.sr[1]]; }
static float at1(const Tensor& t, int64_t i) { return ((float*)t.st->p)[t.off + i * t.sr[0]]; }
static Tensor caches(Case& c, int& L2, int& L3) {
  Hw h = gen_hw(c, 8, false); L2 = h.L2; L3 = h.L3; if (c.chance(30)) { L2 = 1 << 20; L3 = 8 << 20; }
  Tensor t = at::empty({2}, at::TensorOptions(c.chance(80) ? at::kInt : at::kLong)); t.store(0, L2); t.store(1, L3); return t;
}
static void churn(Case& c) { int n = c.range(1, 6); for (int i = 0; i < n; i++) { int s = c.logrange(16, 1 << 16); void* p = malloc(s); memset(p, 0x7E, s); free(p); } }

struct Call { std::vector<Tensor> out; std::vector<Ref> want; std::vector<int64_t> ks; bool ints; std::string name; };
static const char* ONAME[] = {"output", "grad_input", "grad_weight", "grad_bias"};
static void verify(Case& c, const Call& k, const char* when) {
  bool fwd = k.name == "forward"; for (size_t i = 0; i < k.want.size(); i++) match(c, k.out[i], k.want[i], k.ks[i], fwd ? ONAME[0] : ONAME[1 + i], when, k.ints);
}
static Call one(Case& c, bool fwd, int cap) {
  double work = 3e5; if (c.range(0, 149) == 149) { work = 2.5e7; cap = 8000; c.label("large layer"); }
  int B = c.coin() ? c.range(1, 20) : c.logrange(1, cap), I = c.coin() ? c.range(1, 40) : c.logrange(1, cap), O = c.coin() ? c.range(1, 40) : c.logrange(1, cap);
  if (c.range(0, 39) == 39) (c.coin() ? B : O) = 1;
  while ((double)B * I * O > work) { int& m = B > I ? (B > O ? B : O) : (I > O ? I : O); m = std::max(1, m * 3 / 5); }
  int mode = c.pick({0, 0, 0, 1, 2}), lx, lw, lb = 0, lg = 0, L2, L3; uint32_t seed = c.seed(); bool bias = c.coin();
  Tensor cs = caches(c, L2, L3);
  Arg x = make(c, {B, I}, seed, mode, lx), w = make(c, {O, I}, seed + 1, mode, lw), b, g; if (bias) b = make(c, {O}, seed + 2, mode, lb); if (!fwd) g = make(c, {B, O}, seed + 3, mode, lg);
  c.describe("%s batch=%d in=%d out=%d %s input %s, weight %s, bias %s%s%s, L2=%d L3=%d;", fwd ? "forward" : "backward", B, I, O, mode == 0 ? "integers" : "reals", LAY[lx], LAY[lw], bias ? LAY[lb] : "absent", fwd ? "" : ", grad ", fwd ? "" : LAY[lg], L2, L3);
  c.label(bias ? "with bias" : "without bias"); if (lx || lw || lg) c.label("strided argument"); if (B == 1 || I == 1 || O == 1) c.label("dimension of 1");
  if (B > 1 && I > 1 && O > 1 && B != I && I != O) c.nontrivial(true);
  Call k; k.ints = mode == 0; k.name = fwd ? "forward" : "backward";
  auto X = [&](int64_t i, int64_t j) { return at2(x.t, i, j); }; auto W = [&](int64_t i, int64_t j) { return at2(w.t, i, j); }; auto G = [&](int64_t i, int64_t j) { return at2(g.t, i, j); };
  auto zero = [](int64_t) { return 0.0; };
  if (fwd) { k.want.push_back(ref(B, O, I, X, [&](int64_t q, int64_t j) { return W(j, q); }, [&](int64_t j) { return bias ? (double)at1(b.t, j) : 0.0; })); k.ks = {I}; }
  else {
    k.want.push_back(ref(B, I, O, G, W, zero)); k.want.push_back(ref(O, I, B, [&](int64_t i, int64_t q) { return G(q, i); }, X, zero)); k.ks = {O, B, B};
    if (bias) k.want.push_back(ref(1, O, B, [](int64_t, int64_t) { return 1.0; }, G, zero));
  }
  auto& f = fn(c, fwd ? "forward" : "backward");
  try { k.out = fwd ? f.call({cs, x.t, w.t, b.t}) : f.call({cs, g.t, x.t, w.t, b.t}); }
  catch (const c10::Error& e) { c.fail("exception", "%s", e.what()); }
  unchanged(c, x, "input", {B, I}); unchanged(c, w, "weight", {O, I}); if (bias) unchanged(c, b, "bias", {O}); if (!fwd) unchanged(c, g, "grad_output", {B, O});
  if (cs.load(0) != L2 || cs.load(1) != L3) c.fail("input modified", "the cache sizes were modified");
  size_t no = fwd ? 1 : 3; if (k.out.size() != no) c.fail("results", "%zu tensors returned, expected %zu", k.out.size(), no);
  if (fwd) shape(c, k.out[0], {B, O}, "output");
  else { shape(c, k.out[0], {B, I}, "grad_input"); shape(c, k.out[1], {O, I}, "grad_weight"); if (bias) shape(c, k.out[2], {O}, "grad_bias"); else if (k.out[2].defined()) c.fail("results", "a bias gradient without a bias"); }
  verify(c, k, "");
  // results are the caller's: they alias no argument and no other result
  for (size_t i = 0; i < k.out.size(); i++) if (k.out[i].defined()) {
    for (auto* a : {&x, &w, &b, &g}) if (a->t.defined() && a->t.st == k.out[i].st) c.fail("aliasing", "a result shares memory with an argument");
    for (size_t j = 0; j < i; j++) if (k.out[j].defined() && k.out[j].st->p == k.out[i].st->p) c.fail("aliasing", "two results share memory");
  }
  return k;
}
// a history of calls whose results are kept, read again and dropped in any order
static void history(Case& c) {
  int cap = c.chance(20) ? 400 : 80, n = c.weighted({5, 2, 2, 1}) + 1; std::vector<Call> kept;
  shim_reset(); shim_configure(c.range(0, 2), c.seed(), 0);
  for (int i = 0; i < n; i++) {
    kept.push_back(one(c, c.coin(), cap)); churn(c);
    for (auto& k : kept) verify(c, k, " after the arguments were dropped");
    if (kept.size() > 1 && c.coin()) { kept.erase(kept.begin() + c.range(0, (int)kept.size() - 1)); churn(c); for (auto& k : kept) verify(c, k, " after another result was dropped"); }
  }
  if (n > 1) c.label("%d calls", n);
}
// forward and backward release what they allocate, and the results release themselves
static void ledger(Case& c) {
  bool fwd = c.coin(), bias = c.coin(); int B = c.range(1, 30), I = c.range(1, 30), O = c.range(1, 30), L2, L3, lay, reps = c.range(1, 4); shim_reset();
  Tensor cs = caches(c, L2, L3); Arg x = make(c, {B, I}, 1, 0, lay), w = make(c, {O, I}, 2, 0, lay), b, g; if (bias) b = make(c, {O}, 3, 0, lay); g = make(c, {B, O}, 4, 0, lay);
  c.describe("%s x%d batch=%d in=%d out=%d bias %d: allocations", fwd ? "forward" : "backward", reps, B, I, O, bias); c.nontrivial(B > 1 && I > 1 && O > 1);
  auto& f = fn(c, fwd ? "forward" : "backward");
  auto go = [&] { try { auto r = fwd ? f.call({cs, x.t, w.t, b.t}) : f.call({cs, g.t, x.t, w.t, b.t}); } catch (const c10::Error& e) { c.fail("exception", "%s", e.what()); } };
  go(); long a = live; for (int i = 0; i < reps; i++) go();
  if (live != a) c.fail(live > a ? "memory leak" : "freed too much", "%ld blocks over %d calls", live - a, reps);
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C19"; cfg.init = init;
  cfg.rule = "a case is a history of forward/backward calls of the extension on strided tensors, every result compared with its definition in double precision (exactly for integers) after each step; non-trivial = a call whose batch, input and output sizes exceed 1 and are not all interchangeable";
#ifdef NOLEDGER
  cfg.arms = {{"history", history, 12000, 200000}};
#else
  cfg.arms = {{"history", history, 60000, 1000000}, {"ledger", ledger, 20000, 200000}};
#endif
  return pbt::main_impl(argc, argv, cfg);
}
