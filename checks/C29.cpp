// Schedules that do not exist (or that nobody has chosen yet) are refused.
#include "cakegen.h"
#include <sys/wait.h>
#ifndef TREE_NCORES
#define TREE_NCORES 24
#endif
struct Shared { volatile int returned; volatile long value; };
static Shared* sh; static float* out; static const size_t OUT = 1 << 18;
static void init() {
  sh = (Shared*)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  out = (float*)mmap(0, OUT * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static const char* W[] = {"cake_sgemm", "init_block_dims", "get_cache_dims", "pack_A", "pack_B", "pack_C", "unpack_C", "cake_sgemm_packed_A_size", "cake_sgemm_packed_C_size", "print_schedule", "schedule"};
static void refused(Case& c) {
  int w = c.range(0, 10); bool open = w <= 2;                        // these choose a schedule themselves when none is named
  Limits l; l.flops = 1e5; l.dim = 120; l.maxp = 6; l.longest = 0; Prob q = gen_prob(c, E_1D, l, false, 0); if (q.sch == NA) q.sch = KMN;
  while ((size_t)q.M * q.N > 60000) (q.M > q.N ? q.M : q.N) /= 2;
  int bad = open || c.coin() ? c.pick({4, 5, 7, 8, 16, 100, 255, 256, 1 << 20, INT32_MAX, -1, -2, INT32_MIN}) : (int)NA; volatile int vb = bad; enum sched s = (enum sched)vb;
  if (w == 2) q.mcu = q.kcu = q.ncu = 0;                             // with a given tile it chooses nothing
  if (w == 0 && c.coin()) { q.alpha = 2; q.beta = 1; }
  bool pa = w == 0 && c.chance(20), pb = w == 0 && c.chance(20);
  describe(c, q); c.describe("%s with schedule %d", W[w], bad); c.label("%s", W[w]); c.label(bad == (int)NA ? "not chosen" : "no such schedule"); c.nontrivial(bad != (int)NA || w != 9);
  cake_cntx_t ctx; set_ctx(&ctx, q.hw); blk_dims_t x; memset(&x, 0, sizeof x); plan_blocks(q, &x, &ctx, q.sch);
  size_t big = 1; for (int k = 0; k < 3; k++) { big = std::max(big, cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &ctx, (enum sched)k) / 4); big = std::max(big, cake_sgemm_packed_C_size(q.M, q.N, q.p, &x, &ctx, (enum sched)k) / 4); }
  big = std::max(big, cake_sgemm_packed_B_size(q.K, q.N, q.p, &x, &ctx) / 4); big = std::max(big, std::max((size_t)q.M * q.K, std::max((size_t)q.K * q.N, (size_t)q.M * q.N))); big += 4096;
  if (big > OUT) { c.discard(); return; }
  std::vector<float> v(big + 32, 1.f), u(big + 32, 1.f); float* A = v.data() + (16 - ((uintptr_t)v.data() / 4 & 15)) % 16; float* B = u.data() + (16 - ((uintptr_t)u.data() / 4 & 15)) % 16;
  for (size_t i = 0; i < big; i++) out[i] = 12345;
  sh->returned = 0; fflush(NULL);
  pid_t pid = fork(); if (pid < 0) { c.discard(); return; }
  if (!pid) {
    alarm(60); int n = ::open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); dup2(n, 2); }
    signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); shim_reset(); shim_configure(0, 0, 0); omp_set_num_threads(q.p); blk_dims_t y; memset(&y, 0, sizeof y);
    switch (w) {
      case 0: cake_sgemm(A, B, out, q.M, q.N, q.K, q.p, &ctx, NULL, pa, pb, q.alpha, q.beta, s, q.mcu, q.kcu, q.ncu); break;
      case 1: init_block_dims(q.M, q.N, q.K, q.p, &y, &ctx, s, NULL, 4, q.mcu, q.kcu, q.ncu); sh->value = y.sch; break;
      case 2: { cache_dims_t* d = get_cache_dims(q.M, q.N, q.K, q.p, &ctx, s, NULL, 4, q.mcu, q.kcu, q.ncu); sh->value = d ? d->sch : -9; break; }
      case 3: pack_A(A, out, q.M, q.K, q.p, &x, &ctx, s); break;
      case 4: pack_B(B, out, q.K, q.N, q.p, &x, &ctx, s); break;
      case 5: pack_C(A, out, q.M, q.N, q.p, &x, &ctx, s); break;
      case 6: unpack_C(out, A, q.M, q.N, q.p, &x, &ctx, s); break;
      case 7: sh->value = (long)cake_sgemm_packed_A_size(q.M, q.K, q.p, &x, &ctx, s); break;
      case 8: sh->value = (long)cake_sgemm_packed_C_size(q.M, q.N, q.p, &x, &ctx, s); break;
      case 9: print_schedule(s); break;
      default: schedule(A, B, out, q.M, q.N, q.K, q.p, &ctx, &x, s, 0, 0); break;
    }
    sh->returned = 1; _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (sh->returned) c.fail("accepted", "%s returned (%ld) for schedule %d", W[w], (long)sh->value, bad);
  if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) c.fail("crashed", "%s ended with signal %d for schedule %d", W[w], WTERMSIG(st), bad);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) c.fail("silent end", "%s ended the process with status 0 for schedule %d", W[w], bad);
  for (size_t i = 0; i < big; i++) if (out[i] != 12345) c.fail("wrote before refusing", "%s wrote element %zu of its output for schedule %d", W[w], i, bad);
}
int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C29"; cfg.init = init;
  cfg.rule = "a case names a schedule that does not exist (or leaves it open where one must be named) in one call, run in a child process, which must end unsuccessfully without having touched its output; non-trivial = every such call except printing an unchosen schedule";
  cfg.arms = {{"refused", refused, 25000, 400000}};
  return pbt::main_impl(argc, argv, cfg);
}
