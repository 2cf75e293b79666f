// C entry points around the extension, for the Python side of C19.
#include <torch/extension.h>
#include <dlfcn.h>
void extension_init(pybind11::module_& m);
static pybind11::module_* mod;
static at::Tensor in(const float* p, int r, int c) { if (!p) return {}; at::Tensor t = c ? at::empty({r, c}) : at::empty({r}); memcpy(t.data_ptr(), p, t.numel() * 4); return t; }
static int out(const at::Tensor& t, float* p, int n) { if (!t.defined()) return 0; if (t.numel() != n) return -1; at::Tensor k = t.contiguous(); memcpy(p, k.data_ptr(), n * 4); return (int)t.dim(); }
extern "C" int ext_call(const char* name, int ncache, const int* cache, const float* g, const float* x, const float* w, const float* b, int B, int I, int O, float* o1, float* o2, float* o3, char* msg) {
  if (!mod) { mod = new pybind11::module_; extension_init(*mod); }
  at::Tensor cs = at::empty({ncache}, at::kInt); for (int i = 0; i < ncache; i++) cs.store(i, cache[i]);
  try {
    for (auto& f : mod->fns) if (f.name == name) {
      if (f.name == "forward") { auto r = f.call({cs, in(x, B, I), in(w, O, I), in(b, O, 0)}); return out(r.at(0), o1, B * O) == 2 ? 0 : 2; }
      auto r = f.call({cs, in(g, B, O), in(x, B, I), in(w, O, I), in(b, O, 0)}); if (r.size() != 3) return 2;
      if (out(r[0], o1, B * I) != 2 || out(r[1], o2, O * I) != 2 || out(r[2], o3, O) != (b ? 1 : 0)) return 2;
      return 0;
    }
  } catch (std::exception& e) { snprintf(msg, 200, "%s", e.what()); return 1; }
  snprintf(msg, 200, "no function %s", name); return 1;
}
