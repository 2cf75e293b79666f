// Calls under failing allocations and failing child processes: a right answer, or the end of the process.
#include "cakegen.h"
#include <malloc.h>
#ifndef TREE_NCORES
#define TREE_NCORES 24
#endif

extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static bool on = false; static int mode = 0; static long at = 0, seen = 0, seen_p = 0; static size_t big = 0;
struct Shared { volatile int hit, done, wrong, segv, code; volatile uintptr_t addr; volatile size_t bad_i; volatile float got, want; volatile int v[8]; };
static Shared* sh;
static void init() { sh = (Shared*)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static bool refuse(size_t n) {
  if (!on) return false;
  seen++;
  bool r = mode == 0 ? seen == at : mode == 1 ? seen >= at : mode == 2 ? n >= big : false;
  if (r) sh->hit = 1;
  return r;
}
extern "C" {
void* malloc(size_t n) { if (refuse(n)) { errno = ENOMEM; return nullptr; } return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { if (refuse(a * b)) { errno = ENOMEM; return nullptr; } return __libc_calloc(a, b); }
void* realloc(void* q, size_t n) { if (refuse(n)) { errno = ENOMEM; return nullptr; } return __libc_realloc(q, n); }
void* memalign(size_t a, size_t n) { if (refuse(n)) { errno = ENOMEM; return nullptr; } return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { if (refuse(n)) return ENOMEM; void* p = __libc_memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
FILE* __real_popen(const char*, const char*);
FILE* __wrap_popen(const char* c, const char* m) {
  if (on && (mode == 3 ? ++seen_p == at : mode == 4 ? ++seen_p >= at : false)) { sh->hit = 1; errno = EAGAIN; return nullptr; }
  return __real_popen(c, m);
}
}
// a null pointer that was used after all ends the process too; a fault anywhere else is a wild access
static void on_segv(int sig, siginfo_t* i, void*) { sh->segv = sig; sh->code = i->si_code; sh->addr = (uintptr_t)i->si_addr; _exit(50); }

static void choose(Case& c, bool procs, size_t typical) {
  mode = procs ? c.pick({0, 1, 3, 3, 4}) : c.pick({0, 0, 0, 1, 2});
  at = mode == 0 || mode == 1 ? (c.chance(80) ? c.range(1, 8) : c.range(1, 30)) : c.range(1, 9); big = c.logrange(64, (int)std::min<size_t>(typical * 4 + 128, 1 << 28));
  static const char* W[] = {"allocation %ld fails", "allocations fail from number %ld on", "allocations of at least %zu bytes fail", "child process %ld cannot be started", "no child process can be started from number %ld on"};
  c.describe(mode == 2 ? W[2] : W[mode], mode == 2 ? (long)big : at); c.label(W[mode], 0L);
}
// fn runs in a child with the failures armed; `right` then judges what it left behind
template <class F, class G> static void under(Case& c, const char* what, F fn, G right) {
  memset((void*)sh, 0, sizeof *sh); fflush(NULL);
  pid_t pid = fork();
  if (pid < 0) { c.discard(); return; }
  if (!pid) {
    alarm(60);
    int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); dup2(n, 2); }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); signal(SIGABRT, SIG_DFL);
    shim_reset(); shim_configure(0, 0, 0);
    seen = seen_p = 0; on = true; fn(); on = false;
    right();
    sh->done = 1; _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  c.nontrivial(sh->hit); c.label(sh->done ? sh->hit ? "failure survived" : "no failure happened" : "process ended");
  if (sh->done) {
    if (sh->wrong == 1) c.fail("wrong result after a failure", "%s returned; value %zu is %.9g instead of %.9g", what, (size_t)sh->bad_i, (double)sh->got, (double)sh->want);
    if (sh->wrong == 2) c.fail("wrong verdict after a failure", "%s returned %d", what, sh->v[0]);
    if (sh->wrong == 3) c.fail("wrong description after a failure", "%s returned L1=%d L2=%d L3=%d cores=%d tile %dx%d", what, sh->v[0], sh->v[1], sh->v[2], sh->v[3], sh->v[4], sh->v[5]);
    return;
  }
  if (sh->segv) { if (sh->code == SEGV_MAPERR && sh->addr < 1ull << 32) { c.label("null pointer used"); return; }
    c.fail("wild access after a failure", "%s: signal %d at %#lx", what, sh->segv, (unsigned long)sh->addr); }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) c.fail("hang after a failure", "%s did not end", what);
  if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) c.fail("killed after a failure", "%s: signal %d", what, WTERMSIG(st));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) c.fail("silent end after a failure", "%s ended the process with status 0", what);
}

static void product(const Prob& q, const float* C, const float* R) {
  for (size_t i = 0; i < (size_t)q.M * q.N; i++) if (!(C[i] == R[i])) { sh->bad_i = i; sh->got = C[i]; sh->want = R[i]; sh->wrong = 1; return; }
}
static void gemm(Case& c) {
  static const Entry es[] = {E_1D, E_1D, E_1D, E_1D, E_ONLINE, E_2D, E_2DS, E_TEST};
  Limits l; l.flops = 3e5; l.dim = 300; l.maxp = 10; l.longest = 20000; Prob q = gen_prob(c, es[c.range(0, 7)], l, c.chance(30), TREE_NCORES);
  if (c.chance(30)) { q.alpha = c.pick({2.f, 0.f, -1.f}); q.beta = c.pick({0.f, 1.f, 2.f}); }
  describe(c, q);
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N; choose(c, false, std::max(mk, std::max(kn, mn)) * 4);
  (void)plan_of(q); c.label("%s", ENTRY[q.e]);
  Buf A(mk), B(kn), C(mn), R(mn); fill_int(A.p(), A.n, 1); fill_int(B.p(), B.n, 2); if (q.beta != 0) for (size_t i = 0; i < mn; i++) C.p()[i] = 3;
  ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K); for (size_t i = 0; i < mn; i++) R.p()[i] = q.alpha * R.p()[i] + q.beta * 3;
  cake_cntx_t ctx; set_ctx(&ctx, q.hw);
  under(c, ENTRY[q.e], [&] { call(q, &ctx, A.p(), B.p(), C.p()); }, [&] { product(q, C.p(), R.p()); });
}

static void set_fake() { static bool done = false; if (done) return; done = true; std::string path = std::string(getenv("FAKE_BIN")) + ":/usr/local/bin:/usr/bin:/bin"; setenv("PATH", path.c_str(), 1); }
static void queries(Case& c) {
  set_fake(); int w = c.range(0, 3); Prob q;
  static const char* W[] = {"cake_query_cntx", "get_cache_size", "get_num_physical_cores", "a multiplication without a context"};
  static cake_cntx_t* truth = nullptr; if (!truth) truth = cake_query_cntx();
  int lev = c.range(1, 3);
  if (w == 3) { static const Entry es[] = {E_1D, E_ONLINE, E_2D, E_2DS, E_TEST}; Limits l; l.flops = 5e4; l.dim = 100; l.maxp = 6; l.longest = 20000; q = gen_prob(c, es[c.range(0, 4)], l, false, TREE_NCORES, false); q.p = std::min(q.p, 4); describe(c, q); }
  c.describe("%s. ", W[w]); c.label("%s", W[w]); choose(c, true, 4096);
  size_t mk = (size_t)q.M * q.K, kn = (size_t)q.K * q.N, mn = (size_t)q.M * q.N; Buf A(mk), B(kn), C(mn), R(mn); fill_int(A.p(), A.n, 1); fill_int(B.p(), B.n, 2); ref_gemm(A.p(), B.p(), R.p(), q.M, q.N, q.K);
  cake_cntx_t* got = nullptr; int val = 0;
  under(c, W[w], [&] { if (w == 0) got = cake_query_cntx(); else if (w == 1) val = get_cache_size(lev); else if (w == 2) val = get_num_physical_cores(); else call(q, NULL, A.p(), B.p(), C.p()); },
    [&] {
      if (w == 0) { bool ok = got && got->L1 == truth->L1 && got->L2 == truth->L2 && got->L3 == truth->L3 && got->ncores == truth->ncores && got->mr == truth->mr && got->nr == truth->nr;
        if (!ok) { if (got) { sh->v[0] = got->L1; sh->v[1] = got->L2; sh->v[2] = got->L3; sh->v[3] = got->ncores; sh->v[4] = got->mr; sh->v[5] = got->nr; } sh->wrong = 3; } }
      else if (w == 1) { if (val != (lev == 1 ? truth->L1 : lev == 2 ? truth->L2 : truth->L3)) { sh->v[lev - 1] = val; sh->wrong = 3; } }
      else if (w == 2) { if (val != truth->ncores) { sh->v[3] = val; sh->wrong = 3; } }
      else product(q, C.p(), R.p());
    });
}

static void checkers(Case& c) {
  int M = c.range(1, 40), N = c.range(1, 40), K = c.range(1, 20), w = c.range(0, 1); bool bad = c.coin();
  c.describe("%s M=%d N=%d K=%d, %s candidate. ", w ? "add_checker" : "cake_sgemm_checker", M, N, K, bad ? "wrong" : "right"); c.label(w ? "add_checker" : "cake_sgemm_checker");
  choose(c, false, M * N * 4); size_t mn = (size_t)M * N; if (at > 3) at = 1;
  Buf A((size_t)M * K), B((size_t)K * N), C(mn), D(mn); fill_int(A.p(), A.n, 1); fill_int(B.p(), B.n, 2); fill_int(D.p(), D.n, 3);
  float* parts[2] = {D.p(), D.p()}; if (w) for (size_t i = 0; i < mn; i++) C.p()[i] = 2 * D.p()[i]; else ref_gemm(A.p(), B.p(), C.p(), M, N, K);
  if (bad) C.p()[c.range(0, (int)mn - 1)] += 5;
  bool r = false;
  under(c, w ? "add_checker" : "cake_sgemm_checker", [&] { r = w ? add_checker(parts, C.p(), M, N, 2) : cake_sgemm_checker(A.p(), B.p(), C.p(), N, M, K); }, [&] { sh->v[0] = r; if (r != bad) sh->wrong = 2; });
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C25"; cfg.init = init;
  cfg.rule = "a case runs one call in a child process in which chosen allocations or child processes fail; it must return the right result or end the process unsuccessfully without a wild access; non-trivial = the failure happened";
  cfg.arms = {{"gemm", gemm, 40000, 600000}, {"queries", queries, 600, 8000}, {"checkers", checkers, 4000, 40000}};
  return pbt::main_impl(argc, argv, cfg);
}
