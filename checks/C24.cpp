// Several host threads use the library at the same time, each on its own context and results.
// Built twice: under ThreadSanitizer with a per-thread OpenMP runtime (any access of one host thread's call
// to memory another call writes is reported, whatever the interleaving), and on the system's libgomp.
#include "job.h"
#include <pthread.h>
#include <sys/wait.h>
#ifdef REAL
extern "C" { void shim_configure(int, uint64_t, int) {} void shim_reset(void) {} }
#endif

// the pointer is stored where ThreadSanitizer sees it, and other threads may run before the caller goes on
extern "C" int __real_posix_memalign(void**, size_t, size_t);
extern "C" int __wrap_posix_memalign(void** o, size_t a, size_t n) { void* p = nullptr; int r = __real_posix_memalign(&p, a, n); if (!r) *o = p; static __thread unsigned k; if (++k % 4 == 0) usleep(20); return r; }

struct Shared { volatile int bad_thread, bad_call; volatile size_t bad_i; volatile float got, want; };
static Shared* sh;
static void init() { sh = (Shared*)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

struct Host { std::vector<const Job*> jobs; std::vector<std::vector<float>> got; bool query = false; pthread_barrier_t* bar; };
static std::vector<float> run_query(const Job& j) {       // the library describes the machine itself
  std::vector<float> o = j.out; Prob q = j.q; q.mcu = q.kcu = q.ncu = 0;
  call(q, NULL, (float*)j.in1.data(), (float*)j.in2.data(), o.data()); o.push_back(0); return o;
}
static void* host(void* v) {
  Host& h = *(Host*)v;
  shim_reset(); shim_configure(0, 0, 1);
  pthread_barrier_wait(h.bar);
  for (auto j : h.jobs) h.got.push_back(h.query && j->kind == 0 && j->q.e == E_1D ? run_query(*j) : exec(*j));
  return nullptr;
}

static void overlap(Case& c) {
  int nh = c.range(2, 3), same = c.chance(35);
  std::vector<std::unique_ptr<Job>> all; std::vector<Host> hosts(nh); bool nt = false;
  pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, nh);
#ifdef REAL
  double flops = c.chance(90) ? 2e5 : 4e6; int dim = 400, maxp = 4; int maxjobs = 4;
#else
  double flops = c.chance(92) ? 4e4 : 3e5; int dim = 200, maxp = 6; int maxjobs = 2;
#endif
  for (int h = 0; h < nh; h++) {
    int n = c.range(1, maxjobs); hosts[h].bar = &bar;
    for (int k = 0; k < n; k++) {
      if (same && h > 0 && k < (int)hosts[0].jobs.size()) { hosts[h].jobs.push_back(hosts[0].jobs[k]); c.describe("[thread %d: as thread 0, same inputs] ", h); continue; }
      c.describe("[thread %d: ", h); all.emplace_back(new Job(gen(c, flops, dim, maxp))); c.describe("] "); hosts[h].jobs.push_back(all.back().get());
    }
  }
#ifdef REAL
  if (c.chance(3)) for (auto& h : hosts) h.query = true;
  int team = c.pick({0, 0, 0, 1, 2}); if (team) { c.label("callers in a parallel region, %d level%s", team, team > 1 ? "s" : ""); c.describe("[callers are threads of a parallel region, %d levels] ", team); }
#endif
  for (auto& h : hosts) for (auto j : h.jobs) nt |= j->kind == 0 || j->kind == 10;
  c.label("%d threads%s", nh, same ? ", shared inputs" : ""); c.nontrivial(nt);
  // exact products where the reference does not come from the library
  for (auto& j : all) if (j->kind == 0) { j->ref.resize(j->out.size()); ref_gemm(j->in1.data(), j->in2.data(), j->ref.data(), j->q.M, j->q.N, j->q.K); }
  for (auto& j : all) if (j->kind == 0 || j->kind == 10) for (auto& v : j->ref) v = j->q.alpha * v + j->q.beta * 3.f;
  sh->bad_thread = -1;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();                       // a process in which the library has not run concurrently yet
  if (pid < 0) { c.discard(); return; }
  if (!pid) {
    alarm(30);
    if (prepack_later) for (auto& j : all) if (j->kind == 10) prepack(*j);
#ifdef REAL
    if (team) {                             // the callers are the threads of the program's own parallel region
      omp_set_dynamic(0); omp_set_max_active_levels(team);
      #pragma omp parallel num_threads(nh)
      { if (omp_get_num_threads() != nh) _exit(3); host(&hosts[omp_get_thread_num()]); }
    } else
#endif
    {
      std::vector<pthread_t> t(nh);
      for (int h = 0; h < nh; h++) if (pthread_create(&t[h], nullptr, host, &hosts[h])) _exit(3);
      for (int h = 0; h < nh; h++) pthread_join(t[h], nullptr);
    }
    shim_reset(); shim_configure(0, 0, 1);
    for (int h = 0; h < nh; h++) for (size_t k = 0; k < hosts[h].jobs.size(); k++) {
      const Job& j = *hosts[h].jobs[k]; const std::vector<float>& g = hosts[h].got[k]; std::vector<float> w = j.ref.empty() ? exec(j) : j.ref;
      for (size_t i = 0; i < w.size(); i++) if (!(g[i] == w[i]) && fbits(g[i]) != fbits(w[i])) { sh->bad_thread = h; sh->bad_call = (int)k; sh->bad_i = i; sh->got = g[i]; sh->want = w[i]; _exit(0); }
    }
    _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) c.fail("data race between callers", "ThreadSanitizer reports two host threads' calls sharing memory");
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 1)) { c.discard(); return; }       // 1: no thread or memory to be had
  if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("crash in concurrent use", "the process ended with status %#x", st);
  if (sh->bad_thread >= 0) c.fail("concurrent calls disturb each other", "thread %d, call %d (%s): value %zu is %.9g instead of %.9g", sh->bad_thread, sh->bad_call, KIND[hosts[sh->bad_thread].jobs[sh->bad_call]->kind], (size_t)sh->bad_i, (double)sh->got, (double)sh->want);
}

// ------------------------------------------------------------------ describing the machine, from several host threads at once
struct Asked { int kind, level; long v[16]; int n; };
struct Asker { std::vector<Asked> q; pthread_barrier_t* bar; };
static long bits(double d) { long l; memcpy(&l, &d, 8); return l; }
static void ask(Asked& a) {
  a.n = 0;
  if (a.kind == 0) a.v[a.n++] = get_cache_size(a.level);
  else if (a.kind == 1) a.v[a.n++] = get_num_physical_cores();
  else { cake_cntx_t* x = cake_query_cntx(); if (!x) { a.v[a.n++] = -12345; return; }
    for (long v : {(long)x->L1, (long)x->L2, (long)x->L3, (long)x->ncores, (long)x->mr, (long)x->nr, (long)x->m_map, (long)x->n_map, bits(x->alpha_n), bits(x->peak_dram_bw), bits(x->peak_flops)}) a.v[a.n++] = v;
    free(x); }
}
static void* asker(void* v) { Asker& h = *(Asker*)v; shim_reset(); shim_configure(0, 0, 1); pthread_barrier_wait(h.bar); for (auto& a : h.q) ask(a); return nullptr; }
static void queries(Case& c) {
  static const char* W[] = {"get_cache_size", "get_num_physical_cores", "cake_query_cntx"};
  static bool done = false; if (!done) { done = true; std::string path = std::string(getenv("FAKE_BIN")) + ":/usr/local/bin:/usr/bin:/bin"; setenv("PATH", path.c_str(), 1); }
  int nh = c.range(2, 3); std::vector<Asker> hs(nh); pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, nh); bool mixed = false;
  for (int h = 0; h < nh; h++) { hs[h].bar = &bar; int n = c.range(1, 3); c.describe("[thread %d:", h);
    for (int k = 0; k < n; k++) { Asked a; memset(&a, 0, sizeof a); a.kind = c.pick({0, 0, 0, 1, 2}); a.level = c.range(1, 3); mixed |= h && (a.kind != hs[0].q[0].kind || a.level != hs[0].q[0].level);
      c.describe(" %s", W[a.kind]); if (a.kind == 0) c.describe("(%d)", a.level); hs[h].q.push_back(a); } c.describe("] "); }
  c.label("hardware queries"); c.nontrivial(mixed);
  sh->bad_thread = -1; fflush(stdout); fflush(stderr);
  pid_t pid = fork(); if (pid < 0) { c.discard(); return; }
  if (!pid) {
    alarm(30); std::vector<pthread_t> t(nh);
    for (int h = 0; h < nh; h++) if (pthread_create(&t[h], nullptr, asker, &hs[h])) _exit(3);
    for (int h = 0; h < nh; h++) pthread_join(t[h], nullptr);
    shim_reset(); shim_configure(0, 0, 1);
    for (int h = 0; h < nh; h++) for (size_t k = 0; k < hs[h].q.size(); k++) { Asked g = hs[h].q[k], w = g; ask(w);
      for (int i = 0; i < w.n; i++) if (g.n != w.n || g.v[i] != w.v[i]) { sh->bad_thread = h; sh->bad_call = (int)k; sh->bad_i = i; sh->got = (float)g.v[i]; sh->want = (float)w.v[i]; _exit(0); } }
    _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) c.fail("data race between callers", "ThreadSanitizer reports two host threads' hardware queries sharing memory");
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 1)) { c.discard(); return; }
  if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("crash in concurrent use", "the process ended with status %#x", st);
  if (sh->bad_thread >= 0) c.fail("concurrent calls disturb each other", "thread %d, query %d (%s): value %zu is %.9g instead of the %.9g it is alone", sh->bad_thread, sh->bad_call, W[hs[sh->bad_thread].q[sh->bad_call].kind], (size_t)sh->bad_i, (double)sh->got, (double)sh->want);
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C24"; cfg.init = init;
#ifdef REAL
  prepack_later = true;      // libgomp must not have run in the process that forks
  cfg.rule = "(libgomp) a case runs generated calls on 2-3 host threads at once, each with its own context and outputs, on real OpenMP threads, against exact products or the same call alone; non-trivial = at least one multiplication";
  cfg.arms = {{"real", overlap, 5000, 200000}, {"queries", queries, 150, 6000}};
#else
  cfg.rule = "(tsan) a case runs generated calls on 2-3 host threads of a fresh process under ThreadSanitizer, each with its own context and outputs (inputs possibly shared); non-trivial = at least one multiplication";
  cfg.arms = {{"tsan", overlap, 6000, 120000}, {"tsan-queries", queries, 120, 3000}};
#endif
  return pbt::main_impl(argc, argv, cfg);
}
