// Small property-based testing engine.
//
// A property is a function of a stream of bounded choices (Src).  Random runs record the
// choices; a failing record is shrunk (delete / zero / minimise choices) and written as
// the replay file.  Cases run in forked worker processes, so a crash, a sanitizer report,
// an exit() inside the library or an endless loop is an ordinary failure of one case and
// shrinks like any other.  Every run is a function of (code, VERIF_SEED).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <unordered_set>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace pbt {

inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const char* s) {
  uint64_t h = 1469598103934665603ull;
  while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; }
  return h;
}

static const uint32_t MAX_CHOICES = 1 << 14;
static const int MAX_LABELS = 192;
static const int MAX_SAMPLES = 8;

struct Label { char name[56]; uint64_t n; };

struct Shared {               // one per worker, MAP_SHARED
  volatile uint64_t started;  // cases started
  volatile uint64_t finished;
  volatile uint64_t beat;     // sign of life of a case that waits
  volatile int cur_arm;
  volatile uint64_t cur_idx;
  volatile uint64_t jobpos;
  volatile int failed;        // a Fail was thrown in the current case
  char kind[64];
  char msg[2048];
  char desc[2048];
  volatile uint32_t nchoices;
  uint32_t choices[MAX_CHOICES];
  uint64_t evaluations, nontrivial, discards, excluded;
  uint64_t arm_eval[32], arm_nontriv[32];
  Label labels[MAX_LABELS];
  int nlabels;
  char samples[MAX_SAMPLES][512];
  int nsamples;
  uint64_t nhash;             // hashes of non-trivial cases live behind this struct
  uint64_t max_cpu_us;
};

struct Fail { std::string kind, msg; };
struct Discard {};

struct Src {
  Shared* sh;
  const std::vector<uint32_t>* rep = nullptr;  // replayed choices
  size_t pos = 0;
  uint64_t state = 0;
  uint32_t next() { state += 0x9E3779B97F4A7C15ull; return (uint32_t)(mix64(state) >> 32); }
  // uniform in [0,bound)
  uint32_t draw(uint32_t bound) {
    uint32_t v;
    if (bound <= 1) v = 0;
    else if (rep) { v = pos < rep->size() ? (*rep)[pos] : 0; if (v >= bound) v = bound - 1; }
    else v = (uint32_t)(((uint64_t)next() * bound) >> 32);
    pos++;
    uint32_t n = sh->nchoices;
    if (n < MAX_CHOICES) { sh->choices[n] = v; sh->nchoices = n + 1; }
    return v;
  }
};

struct Case {
  Src& s;
  Shared* sh;
  bool nontriv = false;
  int reps = 1;
  Case(Src& s_, Shared* sh_) : s(s_), sh(sh_) { sh->desc[0] = 0; }
  // ---- generators -------------------------------------------------------------
  int range(int lo, int hi) { return lo + (int)s.draw((uint32_t)(hi - lo + 1)); }  // shrinks to lo
  bool chance(int percent) { return (int)s.draw(100) >= 100 - percent; }            // shrinks to false
  bool coin() { return s.draw(2) == 1; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + s.draw((uint32_t)l.size())); }
  template <class T> const T& pick(const std::vector<T>& l) { return l[s.draw((uint32_t)l.size())]; }
  // index into weights
  int weighted(std::initializer_list<int> w) {
    int tot = 0; for (int x : w) tot += x;
    int v = (int)s.draw((uint32_t)tot), i = 0;
    for (int x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
  }
  // roughly log-uniform in [lo,hi], lo>=1
  int logrange(int lo, int hi) {
    if (hi <= lo) return lo;
    int bits = 0; while (((hi - lo) >> bits) > 0) bits++;
    int b = range(0, bits);
    int top = b >= bits ? hi - lo : std::min(hi - lo, (1 << b) - 1 + 0);
    return lo + (int)s.draw((uint32_t)top + 1);
  }
  uint32_t seed() { return s.draw(1u << 24); }
  // ---- reporting --------------------------------------------------------------
  void label(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char b[56]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (int i = 0; i < sh->nlabels; i++) if (!strcmp(sh->labels[i].name, b)) { sh->labels[i].n++; return; }
    if (sh->nlabels < MAX_LABELS) { strcpy(sh->labels[sh->nlabels].name, b); sh->labels[sh->nlabels++].n = 1; }
  }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void excluded() { sh->excluded++; }
  void describe(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    size_t n = strlen(sh->desc); va_list ap; va_start(ap, fmt);
    vsnprintf(sh->desc + n, sizeof(sh->desc) - n, fmt, ap); va_end(ap);
  }
  [[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Fail{kind, b};
  }
  [[noreturn]] void discard() { throw Discard{}; }
};

typedef void (*PropFn)(Case&);
struct Arm { const char* name; PropFn fn; int quick; int thorough; };

struct Config {
  const char* property;
  const char* rule;
  std::vector<Arm> arms;
  int cpu_limit_s = 40;            // CPU seconds of one case before it counts as non-terminating
  void (*init)() = nullptr;        // runs in each worker before its cases
};

// gives the running case more CPU time than the default
inline void set_cpu_limit(int sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr); }
// a worker's sign of life while its case waits for something
inline volatile uint64_t*& g_beat() { static volatile uint64_t* t = nullptr; return t; }
// set by properties that want to know
inline int& g_tier_thorough() { static int t = 0; return t; }

struct Opts {
  std::string tier = "quick", replay, out, scratch = "/tmp";
  uint64_t seed = 1;
  int workers = 8;
  double budget = 420;
  double scale = 1.0;
  std::string only;
};

struct Outcome { bool failed = false; bool discarded = false; std::string kind, msg, desc; std::vector<uint32_t> choices; };

static inline double now_s() { struct timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Engine {
  Config cfg; Opts o;
  size_t shsize; uint64_t hcap;
  std::vector<Shared*> sh;
  std::string errfile(int w) { return o.scratch + "/stderr." + std::to_string(w); }

  uint64_t* hashes(Shared* s) { return (uint64_t*)((char*)s + sizeof(Shared)); }

  Shared* alloc_shared(uint64_t cap) {
    void* p = mmap(nullptr, sizeof(Shared) + cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared*)p;
  }

  static void cpu_timer(int sec) { set_cpu_limit(sec); }

  void child_setup(int w) {
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0); dup2(nul, 1);
    int e = open(errfile(w).c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (e >= 0) { dup2(e, 2); close(e); }
    if (nul > 2) close(nul);
    signal(SIGPROF, SIG_DFL);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (cfg.init) cfg.init();
  }

  // runs one case in this process; returns 0 ok, 1 fail, 2 discard
  int run_case(const Arm& a, int ai, uint64_t idx, const std::vector<uint32_t>* rep, Shared* s) {
    s->cur_arm = ai; s->cur_idx = idx; s->nchoices = 0; s->failed = 0;
    s->kind[0] = s->msg[0] = s->desc[0] = 0;
    s->started++;
    cpu_timer(cfg.cpu_limit_s);
    struct rusage r0; getrusage(RUSAGE_SELF, &r0);
    Src src; src.sh = s; src.rep = rep;
    src.state = mix64(o.seed * 0x1000003ull + hash_str(a.name) * 31 + idx);
    Case c(src, s);
    int rc = 0;
    try { a.fn(c); }
    catch (Fail& f) {
      snprintf(s->kind, sizeof s->kind, "%s", f.kind.c_str());
      snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
      s->failed = 1; rc = 1;
    }
    catch (Discard&) { rc = 2; s->discards++; }
    cpu_timer(0);
    struct rusage r1; getrusage(RUSAGE_SELF, &r1);
    uint64_t us = (r1.ru_utime.tv_sec - r0.ru_utime.tv_sec) * 1000000ull + r1.ru_utime.tv_usec - r0.ru_utime.tv_usec;
    if (us > s->max_cpu_us) s->max_cpu_us = us;
    if (rc == 0) {
      s->evaluations += c.reps; s->arm_eval[ai] += c.reps;
      if (c.nontriv) {
        s->nontrivial++; s->arm_nontriv[ai]++;
        uint64_t h = hash_str(a.name);
        for (uint32_t i = 0; i < s->nchoices; i++) h = mix64(h ^ s->choices[i]);
        if (s->nhash < hcap) hashes(s)[s->nhash++] = h;
        if (s->nsamples < MAX_SAMPLES && (s->arm_nontriv[ai] == 3)) {
          snprintf(s->samples[s->nsamples++], 512, "[%s #%llu] %s", a.name, (unsigned long long)idx, s->desc);
        }
      }
    }
    s->finished++;
    return rc;
  }

  std::string tail_of(const std::string& f, size_t n) {
    FILE* fp = fopen(f.c_str(), "r"); if (!fp) return "";
    std::string t; char b[4096]; size_t k;
    while ((k = fread(b, 1, sizeof b, fp)) > 0) { t.append(b, k); if (t.size() > 200000) break; }
    fclose(fp);
    size_t e = t.find("ERROR: AddressSanitizer");
    if (e != std::string::npos) t = t.substr(e);
    else if ((e = t.find("runtime error:")) != std::string::npos) { size_t b0 = t.rfind('\n', e); t = t.substr(b0 == std::string::npos ? 0 : b0 + 1); }
    else if (t.size() > n) t = t.substr(t.size() - n);
    if (t.size() > n) t.resize(n);
    return t;
  }

  std::string crash_kind(int st) {
    if (WIFSIGNALED(st)) {
      int sg = WTERMSIG(st);
      if (sg == SIGPROF) return "does not terminate (CPU limit)";
      if (sg == SIGKILL) return "killed (hang or memory)";
      return std::string("crash: ") + strsignal(sg);
    }
    if (WEXITSTATUS(st) == 77) return "sanitizer report";
    return "library called exit(" + std::to_string(WEXITSTATUS(st)) + ")";
  }

  // wait for pid with a wall limit; returns status
  int wait_wall(pid_t p, double lim) {
    double t0 = now_s(); int st;
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) return st;
      if (now_s() - t0 > lim) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); return st; }
      usleep(now_s() - t0 < 0.05 ? 200 : 3000);
    }
  }

  // run given choices in a forked child
  Outcome exec_choices(int ai, const std::vector<uint32_t>& ch, Shared* s, int w) {
    fflush(stdout); fflush(stderr);
    s->failed = 0; s->nchoices = 0; s->msg[0] = s->kind[0] = s->desc[0] = 0;
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0);
      child_setup(w);
      int rc = run_case(cfg.arms[ai], ai, 0, &ch, s);
      _exit(rc == 1 ? 10 : rc == 2 ? 12 : 0);
    }
    setpgid(p, p);
    int st = wait_wall(p, cfg.cpu_limit_s * 3 + 60);
    kill(-p, SIGKILL);
    Outcome r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 12) { r.discarded = true; return r; }
    r.failed = true; r.desc = s->desc;
    r.choices.assign(s->choices, s->choices + s->nchoices);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10 && s->failed) { r.kind = s->kind; r.msg = s->msg; }
    else { r.kind = crash_kind(st); r.msg = tail_of(errfile(w), 1800); }
    return r;
  }

  static bool simpler(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
  }

  Outcome shrink(int ai, Outcome best, Shared* s, double budget, int max_exec) {
    double t0 = now_s(); int execs = 0;
    std::set<std::vector<uint32_t>> tried;
    auto attempt = [&](std::vector<uint32_t> c) {
      while (!c.empty() && c.back() == 0) c.pop_back();
      if (execs >= max_exec || now_s() - t0 > budget) return false;
      std::vector<uint32_t> bt = best.choices; while (!bt.empty() && bt.back() == 0) bt.pop_back();
      if (!simpler(c, bt)) return false;
      if (!tried.insert(c).second) return false;
      execs++;
      Outcome r = exec_choices(ai, c, s, 90);
      if (!r.failed) return false;
      std::vector<uint32_t> rt = r.choices; while (!rt.empty() && rt.back() == 0) rt.pop_back();
      if (!simpler(rt, bt)) return false;
      r.choices = rt;
      best = r; return true;
    };
    bool prog = true;
    while (prog && execs < max_exec && now_s() - t0 < budget) {
      prog = false;
      for (size_t len : {32, 16, 8, 4, 2, 1}) {                 // delete chunks
        for (size_t i = 0; i + len <= best.choices.size();) {
          std::vector<uint32_t> c = best.choices; c.erase(c.begin() + i, c.begin() + i + len);
          if (attempt(c)) prog = true; else i += len > 4 ? len / 2 : 1;
        }
      }
      for (size_t len : {8, 4, 2, 1}) {                         // zero chunks
        for (size_t i = 0; i + len <= best.choices.size(); i++) {
          bool any = false; std::vector<uint32_t> c = best.choices;
          for (size_t j = i; j < i + len; j++) { any |= c[j] != 0; c[j] = 0; }
          if (any && attempt(c)) prog = true;
        }
      }
      for (size_t i = 0; i < best.choices.size(); i++) {        // minimise single values
        uint32_t lo = 0;
        while (i < best.choices.size() && lo < best.choices[i]) {
          uint32_t hi = best.choices[i], mid = lo + (hi - lo) / 2;
          std::vector<uint32_t> c = best.choices; c[i] = mid;
          if (attempt(c)) prog = true; else lo = mid + 1;
        }
        if (i < best.choices.size() && best.choices[i] > 0) {
          std::vector<uint32_t> c = best.choices; c[i]--; if (attempt(c)) prog = true;
        }
      }
    }
    printf("  shrink: %d executions, %.1f s, %zu choices left\n", execs, now_s() - t0, best.choices.size());
    return best;
  }

  struct Job { int arm; uint64_t idx; };

  int run() {
    std::vector<Job> jobs = make_jobs();
    int W = std::min<int>(o.workers, std::max<size_t>(1, jobs.size()));
    hcap = jobs.size() / W + 16;
    double t0 = now_s();
    std::vector<pid_t> pid(W, 0);
    std::vector<double> last(W, t0); std::vector<uint64_t> lastn(W, 0);
    for (int w = 0; w < W; w++) sh.push_back(alloc_shared(hcap));
    Shared* scratch_sh = alloc_shared(16);
    std::vector<size_t> nexti(W);
    for (int w = 0; w < W; w++) nexti[w] = w;
    auto start = [&](int w) {
      fflush(stdout);
      pid[w] = fork();
      if (pid[w] == 0) {
        setpgid(0, 0);
        child_setup(w); g_beat() = &sh[w]->beat;
        for (size_t i = nexti[w]; i < jobs.size(); i += W) {
          if (now_s() - t0 > o.budget) { _exit(20); }
          sh[w]->jobpos = i;
          int rc = run_case(cfg.arms[jobs[i].arm], jobs[i].arm, jobs[i].idx, nullptr, sh[w]);
          if (rc == 1) _exit(10);
        }
        _exit(0);
      }
      setpgid(pid[w], pid[w]);
      last[w] = now_s(); lastn[w] = sh[w]->started + sh[w]->beat;
    };
    for (int w = 0; w < W; w++) start(w);
    bool budget_hit = false;
    int violations = 0, unrepro = 0;
    std::string vio_line;
    // one failing case: reproduce from its choices, shrink, replay three times
    auto judge = [&](Outcome f, int ai, int w) -> bool {
      printf("  candidate failure in arm %s: %s\n    case: %s\n    %s\n", cfg.arms[ai].name, f.kind.c_str(), f.desc.c_str(), f.msg.c_str());
      fflush(stdout);
      Outcome r = exec_choices(ai, f.choices, scratch_sh, 90);
      if (r.failed) {
        bool slow = r.kind.find("terminate") != std::string::npos || r.kind.find("killed") != std::string::npos;
        Outcome best = shrink(ai, r, scratch_sh, slow ? 1 : 60, slow ? 1 : 1500);
        Outcome l;
        auto thrice = [&](const Outcome& b) { int ok = 0; for (int k = 0; k < 3; k++) { Outcome q = exec_choices(ai, b.choices, scratch_sh, 90); if (q.failed) { ok++; l = q; } } return ok == 3; };
        if (!thrice(best)) { printf("  shrunk case is not stable; trying the original\n"); best = r; if (!thrice(best)) { printf("  original is not stable\n"); goto history; } }
        vio_line = write_replay(ai, best, l, "");
        printf("  minimal case: %s\n  %s: %s\n", l.desc.c_str(), l.kind.c_str(), l.msg.c_str());
        return true;
      }
    history:
      // depends on what ran before it in the same process: replay a suffix of that history
      size_t at = sh[w]->jobpos;
      for (size_t len : {(size_t)2, (size_t)8, (size_t)64, (size_t)1024}) {
        size_t from = at >= len * W ? at - len * W : at % W;
        std::string spec = "seed " + std::to_string(o.seed) + " tier " + o.tier + " from " + std::to_string(from) + " to " + std::to_string(at) + " step " + std::to_string(W);
        int ok = 0; Outcome l;
        for (int k = 0; k < 3; k++) { Outcome q = exec_history(jobs, from, at, W, scratch_sh); if (!q.failed) break; ok++; l = q; }
        if (ok == 3) {
          vio_line = write_replay(ai, f, l, spec);
          printf("  fails only after earlier calls in the same process; history replay: %s\n  %s: %s\n", spec.c_str(), l.kind.c_str(), l.msg.c_str());
          return true;
        }
        if (from == at % (size_t)W) break;
      }
      printf("  not reproduced; not reported\n"); fflush(stdout);
      return false;
    };
    for (;;) {
      bool any = false; int live = 0;
      for (int w = 0; w < W; w++) if (pid[w]) {
        live++;
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          any = true; kill(-pid[w], SIGKILL); pid[w] = 0;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 20) { budget_hit = true; continue; }
          Outcome out; out.failed = true; out.desc = sh[w]->desc;
          out.choices.assign(sh[w]->choices, sh[w]->choices + sh[w]->nchoices);
          if (WIFEXITED(st) && WEXITSTATUS(st) == 10 && sh[w]->failed) { out.kind = sh[w]->kind; out.msg = sh[w]->msg; }
          else { out.kind = crash_kind(st); out.msg = tail_of(errfile(w), 1800); }
          for (int v = 0; v < W; v++) if (pid[v]) kill(-pid[v], SIGSTOP);
          if (judge(out, sh[w]->cur_arm, w)) { violations++; break; }
          for (int v = 0; v < W; v++) if (pid[v]) { kill(-pid[v], SIGCONT); last[v] = now_s(); }
          if (++unrepro < 6) { nexti[w] = sh[w]->jobpos + W; start(w); }
        } else {
          uint64_t s = sh[w]->started + sh[w]->beat;
          if (s != lastn[w]) { lastn[w] = s; last[w] = now_s(); }
          else if (now_s() - last[w] > cfg.cpu_limit_s * 3 + 60) { kill(-pid[w], SIGKILL); }
        }
      }
      if (violations || live == 0) break;
      if (!any) usleep(2000);
    }
    for (int w = 0; w < W; w++) if (pid[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); pid[w] = 0; }
    write_stats(t0, budget_hit, violations, jobs.size());
    if (violations) { printf("VIOLATION-REPLAY %s\n", vio_line.c_str()); fflush(stdout); return 1; }
    fflush(stdout);
    return 0;
  }

  std::string replay_path;
  Outcome exec_history(const std::vector<Job>& jobs, size_t from, size_t to, size_t step, Shared* s) {
    fflush(stdout); fflush(stderr);
    s->failed = 0; s->nchoices = 0; s->msg[0] = s->kind[0] = s->desc[0] = 0;
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0); child_setup(90);
      for (size_t i = from; i <= to; i += step) if (run_case(cfg.arms[jobs[i].arm], jobs[i].arm, jobs[i].idx, nullptr, s) == 1) _exit(10);
      _exit(0);
    }
    setpgid(p, p);
    int st = wait_wall(p, 120);
    kill(-p, SIGKILL);
    Outcome r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
    r.failed = true; r.desc = s->desc;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { r.kind = s->kind; r.msg = s->msg; }
    else { r.kind = crash_kind(st); r.msg = tail_of(errfile(90), 1800); }
    return r;
  }

  std::vector<Job> make_jobs() {
    std::vector<Job> jobs;
    for (size_t a = 0; a < cfg.arms.size(); a++) {
      if (!o.only.empty() && o.only != cfg.arms[a].name) continue;
      uint64_t n = (uint64_t)((o.tier == "thorough" ? cfg.arms[a].thorough : cfg.arms[a].quick) * o.scale + 0.5);
      for (uint64_t i = 0; i < n; i++) jobs.push_back({(int)a, i});
    }
    // deterministic interleaving so that every arm progresses evenly
    std::stable_sort(jobs.begin(), jobs.end(), [&](const Job& x, const Job& y) {
      auto f = [&](const Job& j) { double n = o.tier == "thorough" ? cfg.arms[j.arm].thorough : cfg.arms[j.arm].quick; return (j.idx + 0.5) / n; };
      return f(x) < f(y);
    });
    return jobs;
  }

  std::string write_replay(int ai, const Outcome& b, const Outcome& l, const std::string& history) {
    std::string p = o.out + ".replay";
    FILE* f = fopen(p.c_str(), "w");
    if (!f) return p;
    fprintf(f, "arm %s\nchoices", cfg.arms[ai].name);
    for (uint32_t c : b.choices) fprintf(f, " %u", c);
    if (!history.empty()) fprintf(f, "\nhistory %s", history.c_str());
    fprintf(f, "\ncase %s\nkind %s\n", l.desc.c_str(), l.kind.c_str());
    std::string m = l.msg; for (char& ch : m) if (ch == '\n') ch = '|';
    fprintf(f, "message %s\n", m.c_str());
    fclose(f);
    return p;
  }

  static std::string js(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }

  void write_stats(double t0, bool budget_hit, int violations, size_t planned) {
    if (o.out.empty()) return;
    FILE* f = fopen(o.out.c_str(), "w"); if (!f) return;
    uint64_t ev = 0, nt = 0, dis = 0, exc = 0, mx = 0; std::map<std::string, uint64_t> lab;
    std::unordered_set<uint64_t> hs; std::vector<std::string> samples;
    std::vector<uint64_t> ae(cfg.arms.size()), an(cfg.arms.size());
    for (Shared* s : sh) {
      ev += s->evaluations; nt += s->nontrivial; dis += s->discards; exc += s->excluded; mx = std::max(mx, s->max_cpu_us);
      for (int i = 0; i < s->nlabels; i++) lab[s->labels[i].name] += s->labels[i].n;
      for (uint64_t i = 0; i < s->nhash; i++) hs.insert(hashes(s)[i]);
      for (size_t a = 0; a < cfg.arms.size(); a++) { ae[a] += s->arm_eval[a]; an[a] += s->arm_nontriv[a]; }
      for (int i = 0; i < s->nsamples && samples.size() < 16; i++) samples.push_back(s->samples[i]);
    }
    fprintf(f, "{\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"nontrivial_total\":%llu,\"discarded\":%llu,\"excluded_known\":%llu,\"planned\":%zu,\"budget_hit\":%s,\"violations\":%d,\"max_case_cpu_ms\":%llu,\"wall_s\":%.2f,\"rule\":%s,",
            (unsigned long long)ev, hs.size(), (unsigned long long)nt, (unsigned long long)dis, (unsigned long long)exc, planned, budget_hit ? "true" : "false", violations, (unsigned long long)mx / 1000, now_s() - t0, js(cfg.rule).c_str());
    fprintf(f, "\"arms\":{"); bool first = true;
    for (size_t a = 0; a < cfg.arms.size(); a++) { if (!ae[a]) continue; fprintf(f, "%s%s:{\"evaluations\":%llu,\"nontrivial\":%llu}", first ? "" : ",", js(cfg.arms[a].name).c_str(), (unsigned long long)ae[a], (unsigned long long)an[a]); first = false; }
    fprintf(f, "},\"labels\":{"); first = true;
    for (auto& l : lab) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ",", js(s).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
  }

  int replay() {
    FILE* f = fopen(o.replay.c_str(), "r"); if (!f) { perror(o.replay.c_str()); return 2; }
    std::string arm; std::vector<uint32_t> ch; char* line = nullptr; size_t cap = 0;
    unsigned long long hseed = 0, hfrom = 0, hto = 0, hstep = 0; char htier[32] = "";
    while (getline(&line, &cap, f) > 0) {
      if (!strncmp(line, "arm ", 4)) { arm = line + 4; while (!arm.empty() && isspace((unsigned char)arm.back())) arm.pop_back(); }
      else if (sscanf(line, "history seed %llu tier %31s from %llu to %llu step %llu", &hseed, htier, &hfrom, &hto, &hstep) == 5) {}
      else if (!strncmp(line, "choices", 7)) { char* p = line + 7; char* e; for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; ch.push_back((uint32_t)v); p = e; } }
    }
    free(line); fclose(f);
    hcap = 16;
    Shared* s = alloc_shared(16);
    for (size_t a = 0; a < cfg.arms.size(); a++) if (arm == cfg.arms[a].name) {
      Outcome r;
      if (hstep) { o.seed = hseed; o.tier = htier; g_tier_thorough() = o.tier == "thorough"; std::vector<Job> jobs = make_jobs(); r = exec_history(jobs, hfrom, hto, hstep, s); }
      else r = exec_choices((int)a, ch, s, 91);
      printf("replay arm=%s\n  case: %s\n", arm.c_str(), s->desc);
      if (r.failed) { printf("  FAILS: %s: %s\n", r.kind.c_str(), r.msg.c_str()); return 1; }
      printf("  passes\n"); return 0;
    }
    return 44;   // arm belongs to another binary of this check
  }
};

inline int main_impl(int argc, char** argv, Config cfg) {
  Engine e; e.cfg = cfg;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") e.o.tier = val();
    else if (a == "--seed") e.o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--out") e.o.out = val();
    else if (a == "--replay") e.o.replay = val();
    else if (a == "--workers") e.o.workers = atoi(val().c_str());
    else if (a == "--budget") e.o.budget = atof(val().c_str());
    else if (a == "--scale") e.o.scale = atof(val().c_str());
    else if (a == "--only") e.o.only = val();
    else if (a == "--scratch") e.o.scratch = val();
  }
  g_tier_thorough() = e.o.tier == "thorough";
  if (!e.o.replay.empty()) return e.replay();
  return e.run();
}

}  // namespace pbt
