// Hardware discovery against generated machine descriptions.
#include "cakegen.h"
#include <sys/stat.h>

static std::string hwdir;
static void init() {
  const char* s = getenv("VERIF_SCRATCH"); char b[512]; snprintf(b, sizeof b, "%s/hw.%d", s ? s : "/tmp", getpid()); mkdir(b, 0700); hwdir = b;
  std::string path = std::string(getenv("FAKE_BIN")) + ":/usr/local/bin:/usr/bin:/bin"; setenv("PATH", path.c_str(), 1);
  setenv("FAKE_HW", b, 1); setenv("LD_PRELOAD", getenv("FAKE_SO"), 1); setenv("LC_ALL", "C", 1);
}
static void put(const char* f, const std::string& s) { FILE* fp = fopen((hwdir + "/" + f).c_str(), "w"); if (!fp) _exit(3); fwrite(s.data(), 1, s.size(), fp); fclose(fp); }

struct Row { int id, l1, l2, l3; };
static const Row TABLE[] = {{1, 32, 512, 65536}, {3, 32, 32, 1024}, {4, 16, 16, 512}, {17, 32, 512, 4096}, {33, 32, 512, 65536}, {49, 32, 512, 131072},
                            {69, 32, 256, 4096}, {85, 32, 1024, 36608}, {142, 32, 256, 8192}, {165, 32, 256, 20480}};  // KiB

struct Size { std::string txt; double bytes; };
static Size gen_size(Case& c, int level) {
  char b[32]; Size s; double v; char u;
  switch (c.range(0, 4)) {
    case 0: v = c.pick({32, 48, 64, 256, 512, 1024, 768, 128, 16}); u = 'K'; snprintf(b, sizeof b, "%d%c", (int)v, u); break;
    case 1: v = c.range(1, 1023); u = 'K'; snprintf(b, sizeof b, "%d%c", (int)v, u); break;
    case 2: v = c.range(1, level == 3 ? 1023 : 64); u = 'M'; snprintf(b, sizeof b, "%d%c", (int)v, u); break;
    case 3: { int t = c.range(1, 99); v = t / 10.0; u = c.pick({'M', 'M', 'K', 'G'}); if (level < 3 && u == 'G') u = 'M'; if (u == 'G' && t > 30) t = t % 30 + 1, v = t / 10.0; snprintf(b, sizeof b, "%.1f%c", v, u); break; }
    default: { int t = c.range(1, 999); v = t / 100.0; u = 'M'; snprintf(b, sizeof b, "%.2f%c", v, u); break; }
  }
  s.txt = b; s.bytes = v * (u == 'K' ? 1024.0 : u == 'M' ? 1048576.0 : 1073741824.0); return s;
}

struct Machine { int procs, threads, sockets; bool thr, soc, lscpu; int model; bool has[4]; Size one[4], all[4]; };  // has: 1,2,3
static Machine gen(Case& c) {
  Machine m; std::string sp = c.coin() ? "  " : "", o; char b[256];
  m.threads = c.pick({1, 2, 2, 4, 8}); m.sockets = c.pick({1, 1, 2, 4, 8}); int cores = c.coin() ? c.range(1, 16) : c.logrange(1, 200);
  m.procs = m.threads * m.sockets * cores; if (c.chance(15)) m.procs += c.range(0, 7); if (c.chance(3)) m.procs = 0; if (m.procs > 4000) m.procs = 4000;
  m.thr = !c.chance(8); m.soc = !c.chance(8); m.lscpu = !c.chance(4);
  switch (c.weighted({4, 4, 3})) { case 0: m.model = -1; break; case 1: m.model = TABLE[c.range(0, 9)].id; break; default: m.model = c.coin() ? c.range(0, 260) : c.pick({0, 2, 5, 14, 10, 11, 8, 9, 6, 7, 58, 84, 86, 185, 851, 111, 158, 170, 183, 154}); }
  bool dash = c.coin(), name_first = c.coin(), noise = c.coin();
  o += "Architecture:            x86_64\n" + sp + "CPU op-mode(s):        32-bit, 64-bit\n" + sp + "Byte Order:            Little Endian\n";
  snprintf(b, sizeof b, "CPU(s):                  %d\n%sOn-line CPU(s) list:   0-%d\n", m.procs, sp.c_str(), m.procs - 1); o += b;
  o += "Vendor ID:               " + std::string(c.pick({"GenuineIntel", "AuthenticAMD", "ARM"})) + "\n";
  std::string name = sp + "Model name:            " + c.pick({"Generic CPU @ 2.50GHz", "Intel(R) Core(TM) i9-10900K CPU @ 3.70GHz", "AMD Ryzen 9 5950X 16-Core Processor", "AMD Ryzen Threadripper 3970X 32-Core Processor", "Cortex-A72", "13th Gen Intel(R) Core(TM) i7-1370P"}) + "\n";
  std::string fam = sp + "CPU family:            " + std::to_string(c.pick({6, 23, 25, 4, 85})) + "\n";
  std::string mod = m.model >= 0 ? sp + "Model:                 " + std::to_string(m.model) + "\n" : m.model == -1 && dash ? sp + "Model:                 -\n" : "";
  if (noise) o += sp + "BIOS Model name:       Xeon 8171M CPU @ 2.60GHz\n";
  o += name_first ? name + fam + mod : fam + mod + name;
  std::string t = m.thr ? sp + "Thread(s) per core:    " + std::to_string(m.threads) + "\n" : dash ? sp + "Thread(s) per core:    -\n" : "";
  std::string k = sp + "Core(s) per socket:    " + std::to_string(cores) + "\n";
  std::string s = m.soc ? sp + "Socket(s):             " + std::to_string(m.sockets) + "\n" : dash ? sp + "Socket(s):             -\n" : "";
  o += c.coin() ? t + k + s : k + s + t;
  if (c.chance(8)) o += sp + "Stepping:              r2p0\n" + name + mod + t + k + s;  // a second kind of core (big.LITTLE) gets its own section
  o += sp + "Stepping:              7\n" + sp + "BogoMIPS:              5187.80\n" + sp + "Flags:                 fpu vme de pse tsc msr pae avx2 fma ht\n";
  o += "NUMA:\n" + sp + "NUMA node(s):          2\n" + sp + "NUMA node0 CPU(s):     0-9\n";
  if (noise) o += "Vulnerabilities:\n" + sp + "Mds:                   Mitigation; Clear CPU buffers; SMT vulnerable\n" + sp + "Spectre v2:            Mitigation; Retpolines, STIBP conditional\n";
  put("lscpu", m.lscpu ? o : "");
  std::string one = "NAME ONE-SIZE\n", all = "NAME ALL-SIZE\n"; int w = c.range(5, 10);
  for (int l = 1; l <= 3; l++) {
    m.has[l] = m.lscpu && !c.chance(12); m.one[l] = gen_size(c, l); m.all[l] = gen_size(c, l);
    if (!m.has[l]) continue;
    snprintf(b, sizeof b, "%-4s %*s\n", l == 1 ? "L1d" : l == 2 ? "L2" : "L3", w, m.one[l].txt.c_str()); one += b;
    snprintf(b, sizeof b, "%-4s %*s\n", l == 1 ? "L1d" : l == 2 ? "L2" : "L3", w, m.all[l].txt.c_str()); all += b;
    if (l == 1 && c.coin()) { Size i = gen_size(c, 1); snprintf(b, sizeof b, "%-4s %*s\n", "L1i", w, i.txt.c_str()); one += b; all += b; }
  }
  if (m.lscpu && c.chance(10)) { one += "L4       128M\n"; all += "L4       128M\n"; }
  put("caches_one", m.lscpu ? one : ""); put("caches_all", m.lscpu ? all : "");
  std::string ci; int style = c.range(0, 1);
  for (int i = 0; i < m.procs; i++) {
    ci += "processor\t: " + std::to_string(i) + "\n";
    if (style) ci += "vendor_id\t: GenuineIntel\ncpu family\t: 6\nmodel\t\t: 85\nmodel name\t: Fast processor 3000\ncpu cores\t: 4\n\n"; else ci += "BogoMIPS\t: 108.00\nCPU implementer\t: 0x41\n\n";
  }
  if (!style) ci += "Hardware\t: BCM2835\nModel\t\t: Raspberry Pi 4 processor board\n";
  put("cpuinfo", ci);
  c.describe("%d processors, %s threads per core, %s sockets, model %d%s;", m.procs, m.thr ? std::to_string(m.threads).c_str() : "no", m.soc ? std::to_string(m.sockets).c_str() : "no", m.model, m.lscpu ? "" : ", lscpu prints nothing");
  for (int l = 1; l <= 3; l++) c.describe(" L%d %s/%s", l, m.has[l] ? m.one[l].txt.c_str() : "-", m.has[l] ? m.all[l].txt.c_str() : "-");
  return m;
}

static int want_cores(const Machine& m) {
  int t = m.thr && m.lscpu ? m.threads : 1, s = m.soc && m.lscpu ? m.sockets : 1; return std::max(1, std::max(1, m.procs) / (t * s));
}
static double want_size(const Machine& m, int l) {
  if (m.lscpu) for (const Row& r : TABLE) if (r.id == m.model) return 1024.0 * (l == 1 ? r.l1 : l == 2 ? r.l2 : r.l3);
  if (!m.has[l]) return l < 3 ? 32768 : 524288;
  return std::min(2147483647.0, l < 3 ? m.one[l].bytes : m.all[l].bytes);
}
static void size_is(Case& c, const Machine& m, int l, int got, const char* what) {
  double w = want_size(m, l); if (fabs(got - w) > 1) c.fail("wrong cache size", "%s: L%d is %d bytes, expected %.0f", what, l, got, w);
}
static void ctx_is(Case& c, const Machine& m, const cake_cntx_t* x, const char* what, int L2, int L3) {
  size_is(c, m, 1, x->L1, what);
  if (L2) { if (x->L2 != L2 || x->L3 != L3) c.fail("wrong cache size", "%s: L2/L3 are %d/%d, given %d/%d", what, x->L2, x->L3, L2, L3); }
  else { size_is(c, m, 2, x->L2, what); size_is(c, m, 3, x->L3, what); }
  if (x->ncores != want_cores(m)) c.fail("wrong core count", "%s: %d cores, expected %d", what, x->ncores, want_cores(m));
  if (x->mr != MR_MIN || x->nr != NR_MIN || x->m_map != 0 || x->n_map != 0) c.fail("wrong register tile", "%s: %dx%d [%d][%d]", what, x->mr, x->nr, x->m_map, x->n_map);
  if (!(x->alpha_n == 1.0)) c.fail("wrong context", "%s: alpha_n %g", what, x->alpha_n);
}
static void labels(Case& c, const Machine& m) {
  bool listed = false; for (const Row& r : TABLE) listed |= r.id == m.model;
  c.label(listed && m.lscpu ? "listed model" : "sizes from lscpu"); c.label("procs %s", m.procs > 64 ? ">64" : m.procs > 8 ? "9..64" : "0..8"); c.label("threads per core %d", m.threads);
  for (int l = 1; l <= 3; l++) if (!m.has[l]) c.label("L%d not reported", l);
  c.nontrivial(m.procs > 1 && m.lscpu);
}

static void sizes(Case& c) {
  Machine m = gen(c); labels(c, m); int l = c.range(1, 3);
  c.describe(" -> level %d", l); c.label("level %d", l);
  size_is(c, m, l, get_cache_size(l), "get_cache_size");
}
static void cores(Case& c) {
  Machine m = gen(c); labels(c, m);
  int n = get_num_physical_cores(); if (n != want_cores(m)) c.fail("wrong core count", "get_num_physical_cores gives %d, expected %d", n, want_cores(m));
}
static void context(Case& c) {
  Machine m = gen(c); labels(c, m); bool torch = c.coin(); int reps = c.range(1, 2);
  int L2 = c.logrange(4096, 1 << 24), L3 = c.logrange(4096, 1 << 28); c.label(torch ? "torch context" : "context");
  c.describe(" -> %s x%d", torch ? "cake_query_cntx_torch" : "cake_query_cntx", reps);
  if (!torch) { for (int i = 0; i < reps; i++) { cake_cntx_t* x = cake_query_cntx(); ctx_is(c, m, x, "cake_query_cntx", 0, 0); free(x); } return; }
  int fd[2]; if (pipe(fd)) _exit(3);                 // the torch query remembers the machine: one process per machine
  pid_t p = fork();
  if (p == 0) {
    cake_cntx_t out[2]; memset(out, 0, sizeof out);
    for (int i = 0; i < reps; i++) { cake_cntx_t* x = cake_query_cntx_torch(L2 + i, L3 + i); out[i] = *x; free(x); }
    ssize_t w = write(fd[1], out, sizeof out); _exit(w == sizeof out ? 0 : 5);
  }
  close(fd[1]); cake_cntx_t out[2]; ssize_t r = read(fd[0], out, sizeof out); close(fd[0]); int st; waitpid(p, &st, 0);
  if (r != sizeof out) c.fail("query failed", "cake_query_cntx_torch ended the process (status %d)", st);
  for (int i = 0; i < reps; i++) ctx_is(c, m, &out[i], "cake_query_cntx_torch", L2 + i, L3 + i);
}

int main(int argc, char** argv) {
  pbt::Config cfg; cfg.property = "C14";
  cfg.rule = "a case writes one machine description (lscpu, lscpu --caches, /proc/cpuinfo) and queries it through the library, against the values put in; non-trivial = lscpu works and there is more than one processor";
  cfg.arms = {{"sizes", sizes, 9000, 90000}, {"cores", cores, 6000, 60000}, {"context", context, 4000, 40000}};
  cfg.init = init;
  return pbt::main_impl(argc, argv, cfg);
}
