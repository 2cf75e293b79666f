// Memory, descriptors and children before and after public calls.
#include "cakegen.h"
#include <dirent.h>
#include <malloc.h>

// ------------------------------------------------------------------ allocation ledger
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static long live_blocks = 0, live_bytes = 0; static bool on = false;
static const void* owned[16]; static int n_owned = 0; static const void* stolen = nullptr; static const void* aliens[8]; 
static void add(void* p) { if (p) { live_blocks++; live_bytes += malloc_usable_size(p); } }
static void sub(void* p) { if (p) { live_blocks--; live_bytes -= malloc_usable_size(p); if (on) for (int i = 0; i < n_owned; i++) if (owned[i] == p) stolen = p; } }
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); add(p); return p; }
void free(void* p) { sub(p); if (on && stolen && stolen == p) return; __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); add(p); return p; }
void* realloc(void* q, size_t n) { sub(q); void* p = __libc_realloc(q, n); add(p ? p : n ? q : nullptr); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); add(p); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
}

static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
struct State { long blocks, bytes; int fd; };
static State now() { State s; s.fd = fds(); s.blocks = live_blocks; s.bytes = live_bytes; return s; }
static void no_children(Case& c, const char* what) {
  int st; pid_t p = waitpid(-1, &st, WNOHANG); if (p == -1 && errno == ECHILD) return;
  c.fail("child process left", "%s left a child process (%s)", what, p > 0 ? "a zombie" : "still running");
}
static void same(Case& c, const State& a, const State& b, const char* what, int reps) {
  if (b.fd != a.fd) c.fail("descriptor leak", "%s: %d open descriptors before %d repetitions, %d after", what, a.fd, reps, b.fd);
  if (b.blocks != a.blocks) c.fail(b.blocks > a.blocks ? "memory leak" : "freed too much", "%s: %ld blocks (%ld bytes) %s over %d repetitions", what, labs(b.blocks - a.blocks), labs(b.bytes - a.bytes), b.blocks > a.blocks ? "leaked" : "freed that it did not allocate", reps);
  if (b.bytes != a.bytes) c.fail("memory leak", "%s: %ld bytes over %d repetitions", what, b.bytes - a.bytes, reps);
}
// fn is run once to let one-time initialisation happen, then reps times between two snapshots
template <class F> static void neutral(Case& c, const char* what, int reps, std::initializer_list<const void*> mine, F fn) {
  n_owned = 0; for (auto p : mine) if (n_owned < 16) owned[n_owned++] = p; stolen = nullptr;
  on = true; fn(); no_children(c, what); State a = now(); for (int i = 0; i < reps; i++) fn(); State b = now(); on = false;
  no_children(c, what);
  if (stolen) c.fail("caller memory freed", "%s freed memory it was given", what);
  same(c, a, b, what, reps);
}

// ------------------------------------------------------------------ multiplications on a given context
static void gemm(Case& c) {
  static const Entry es[] = {E_1D, E_1D, E_1D, E_1D, E_ONLINE, E_2D, E_2DS, E_TEST};
  Limits l; l.flops = 5e5; l.dim = 400; l.maxp = 10;
  Prob q = gen_prob(c, es[c.range(0, 7)], l, c.chance(40), TREE_NCORES); int reps = c.range(1, 4), packed = q.e == E_1D ? c.pick({0, 0, 1, 2, 3}) : 0;
  if (c.chance(30)) { q.alpha = c.pick({2.f, 0.f, -1.f}); q.beta = c.pick({0.f, 1.f, 2.f}); }
  describe(c, q); c.describe("packed %d x%d", packed, reps); c.label("packed flags %d", packed); if (q.alpha != 1 || q.beta != 0) c.label("scaled");
  c.nontrivial(classify(c, q, plan_of(q)));
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N;
  float* A = (float*)malloc(mk * 4 + 4); float* B = (float*)malloc(kn * 4 + 4); float* C = (float*)malloc(mn * 4 + 4); cake_cntx_t* ctx = (cake_cntx_t*)malloc(sizeof *ctx);
  fill_int(A, mk, 1); fill_int(B, kn, 2); for (size_t i = 0; i < mn; i++) C[i] = 1; set_ctx(ctx, q.hw);
  float *Ap = nullptr, *Bp = nullptr;
  if (packed) { blk_dims_t x; memset(&x, 0, sizeof x); init_block_dims(q.M, q.N, q.K, q.p, &x, ctx, q.sch, NULL, 4, q.mcu, q.kcu, q.ncu);
    if (packed & 1) { if (posix_memalign((void**)&Ap, 64, cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, ctx, x.sch) + 64)) _exit(3); pack_A(A, Ap, q.M, q.K, q.p, &x, ctx, x.sch); }
    if (packed & 2) { if (posix_memalign((void**)&Bp, 64, cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, ctx) + 64)) _exit(3); pack_B(B, Bp, q.K, q.N, q.p, &x, ctx, x.sch); } }
  shim_reset(); shim_configure(0, 0, 0);
  neutral(c, ENTRY[q.e], reps, {A, B, C, ctx, Ap, Bp}, [&] { call(q, ctx, Ap ? Ap : A, Bp ? Bp : B, C, Ap != nullptr, Bp != nullptr); });
  free(A); free(B); free(C); free(ctx); free(Ap); free(Bp);
}

// ------------------------------------------------------------------ the rest of the public surface
static void others(Case& c) {
  static const char* W[] = {"pack_A", "pack_B", "pack_C + unpack_C", "BLIS-style packers", "cake_sgemm_checker", "add_checker", "mat_equals", "transpose_mat", "planners", "rand_init", "printing"};
  Limits l; l.flops = 2e5; l.dim = 200; l.maxp = 8; int w = c.range(0, 10), reps = c.range(1, 4);
  Prob q = gen_prob(c, E_1D, l, c.chance(40), 0); enum sched sch = w == 3 ? KMN : c.pick({KMN, MKN, NKM}); q.sch = sch;
  describe(c, q); c.describe("%s x%d", W[w], reps); c.label("%s", W[w]); c.nontrivial(true);
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N;
  float* A = (float*)malloc(mk * 4 + 4); float* B = (float*)malloc(kn * 4 + 4); float* C = (float*)malloc(mn * 4 + 4); cake_cntx_t* ctx = (cake_cntx_t*)malloc(sizeof *ctx);
  fill_int(A, mk, 1); fill_int(B, kn, 2); ref_gemm(A, B, C, q.M, q.N, q.K); set_ctx(ctx, q.hw); blk_dims_t x; memset(&x, 0, sizeof x); init_block_dims(q.M, q.N, q.K, q.p, &x, ctx, sch, NULL, 4, q.mcu, q.kcu, q.ncu);
  size_t n = std::max(std::max(cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, ctx, sch), cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, ctx)), std::max(cake_sgemm_packed_C_size(q.M, q.N, q.p, &x, ctx, sch), std::max(mk, mn) * 4));
  float* P; if (posix_memalign((void**)&P, 64, n + 64)) _exit(3); float* T = (float*)malloc(mn * 4 + 4); float* parts[3] = {A, A, A}; bool wrong = c.coin(); if (wrong) C[0] += 5;
  shim_reset(); shim_configure(0, 0, 0); omp_set_num_threads(q.p);
  neutral(c, W[w], reps, {A, B, C, ctx, P, T}, [&] {
    switch (w) {
      case 0: pack_A(A, P, q.M, q.K, q.p, &x, ctx, sch); break;
      case 1: pack_B(B, P, q.K, q.N, q.p, &x, ctx, sch); break;
      case 2: pack_C(C, P, q.M, q.N, q.p, &x, ctx, sch); unpack_C(T, P, q.M, q.N, q.p, &x, ctx, sch); break;
      case 3: pack_A_single_buf_k_first_blis(A, P, q.M, q.K, q.p, &x, ctx); pack_B_k_first_blis(B, P, q.K, q.N, &x, ctx); break;
      case 4: cake_sgemm_checker(A, B, C, q.N, q.M, q.K); break;
      case 5: add_checker(parts, A, q.M, q.K, wrong ? 1 : 3); break;
      case 6: mat_equals(C, C, q.M, q.N); break;
      case 7: transpose_mat(A, P, q.M, q.K, 16, 16); break;
      case 8: { blk_dims_t y; memset(&y, 0, sizeof y); init_block_dims(q.M, q.N, q.K, q.p, &y, ctx, NA, NULL, 4); cache_dims_t* d = get_cache_dims(q.M, q.N, q.K, q.p, ctx, NA, NULL); free(d);
                int nc = ctx->ncores; ctx->ncores = TREE_NCORES; init_block_dims_2d(q.M, q.N, q.K, q.p, &y, ctx, KMN, NULL, 4); ctx->ncores = nc; update_mr_nr(ctx, ctx->mr, ctx->nr); break; }
      case 9: rand_init(A, q.M, q.K); break;
      default: print_array(A, 3); print_mat(A, 1, 1); print_schedule(sch); break;
    } });
  free(A); free(B); free(C); free(ctx); free(P); free(T);
}

// ------------------------------------------------------------------ calls that query the machine
static void set_fake() { static bool done = false; if (done) return; done = true; std::string path = std::string(getenv("FAKE_BIN")) + ":/usr/local/bin:/usr/bin:/bin"; setenv("PATH", path.c_str(), 1); }
static void queries(Case& c) {
  set_fake(); int w = c.range(0, 7), reps = c.range(1, 3); bool tight = c.coin(); Limits l; l.flops = 5e4; l.dim = 100; l.maxp = 6;
  static const char* W[] = {"get_cache_size", "get_num_physical_cores", "cake_query_cntx", "cake_query_cntx_torch"};
  Prob q; if (w >= 4) { static const Entry es[] = {E_1D, E_ONLINE, E_2D, E_2DS, E_TEST}; q = gen_prob(c, es[c.range(0, 4)], l, false, TREE_NCORES, false); if (q.e == E_2D || q.e == E_2DS) q.p = std::min(q.p, 4); if (c.chance(30)) q.alpha = 2; describe(c, q); }
  int lev = c.range(1, 3); c.describe("%s x%d%s", w < 4 ? W[w] : "without a context", reps, tight ? " with few descriptors left" : ""); c.label("%s", w < 4 ? W[w] : ENTRY[q.e]); c.nontrivial(true);
  struct rlimit rl, r0; getrlimit(RLIMIT_NOFILE, &r0); rl = r0; if (tight) { rl.rlim_cur = 16; setrlimit(RLIMIT_NOFILE, &rl); }
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N; float* A = (float*)malloc(mk * 4 + 4); float* B = (float*)malloc(kn * 4 + 4); float* C = (float*)malloc(mn * 4 + 4); std::vector<float> R(mn); fill_int(A, mk, 1); fill_int(B, kn, 2);
  shim_reset(); shim_configure(0, 0, 0);
  neutral(c, w < 4 ? W[w] : ENTRY[q.e], reps, {A, B, C}, [&] {
    switch (w) {
      case 0: get_cache_size(lev); break;
      case 1: get_num_physical_cores(); break;
      case 2: free(cake_query_cntx()); break;
      case 3: free(cake_query_cntx_torch(1 << 20, 8 << 20)); break;
      default: if (q.alpha == 1) for (size_t i = 0; i < mn; i++) C[i] = NAN; call(q, NULL, A, B, C);
    } });
  setrlimit(RLIMIT_NOFILE, &r0);
  if (w >= 4) { ref_gemm(A, B, R.data(), q.M, q.N, q.K); for (auto& x : R) x *= q.alpha; expect_equal(c, C, R.data(), q.M, q.N, "without a context"); }
  free(A); free(B); free(C);
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C21";
  cfg.rule = "a case repeats one public call between two snapshots of the allocation ledger, the open descriptors and the children, after one warm-up call; non-trivial = a multi-block ragged multiplication with p>1, or any non-multiplication call";
  cfg.arms = {{"gemm", gemm, 90000, 1200000}, {"others", others, 60000, 800000}, {"queries", queries, 1000, 12000}};
  return pbt::main_impl(argc, argv, cfg);
}
