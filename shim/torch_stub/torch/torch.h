// A small strided CPU tensor with libtorch's names and semantics, enough for the extension's sources.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <initializer_list>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace c10 {
struct Error : std::runtime_error { using std::runtime_error::runtime_error; };
enum class ScalarType { Float, Int, Long, Double };
enum class DeviceType { CPU };
struct Device { DeviceType t = DeviceType::CPU; Device(DeviceType d = DeviceType::CPU) : t(d) {} bool is_cpu() const { return true; } };
struct Layout {};
struct TensorOptions {
  ScalarType s = ScalarType::Float;
  TensorOptions() {} TensorOptions(ScalarType t) : s(t) {} TensorOptions(Device) {}
  TensorOptions dtype(ScalarType t) const { TensorOptions o = *this; o.s = t; return o; }
  TensorOptions device(Device) const { return *this; }
  TensorOptions requires_grad(bool) const { return *this; }
  ScalarType dtype() const { return s; }
};
struct IntArrayRef {
  std::vector<int64_t> v;
  IntArrayRef() {}  IntArrayRef(std::vector<int64_t> x) : v(std::move(x)) {} IntArrayRef(int64_t x) : v(1, x) {}
  IntArrayRef(std::initializer_list<int64_t> l) : v(l) {}
  size_t size() const { return v.size(); } int64_t operator[](size_t i) const { return v[i]; }
  bool operator==(const IntArrayRef& o) const { return v == o.v; } bool operator!=(const IntArrayRef& o) const { return v != o.v; }
  const int64_t* begin() const { return v.data(); } const int64_t* end() const { return v.data() + v.size(); }
  std::vector<int64_t> vec() const { return v; }
};
template <class T> struct optional_like {};
}

namespace at {
using c10::ScalarType; using c10::TensorOptions; using c10::IntArrayRef; using c10::Device; using c10::DeviceType;
[[noreturn]] inline void err(const std::string& s) { throw c10::Error(s); }
inline size_t elem(ScalarType s) { return s == ScalarType::Long || s == ScalarType::Double ? 8 : 4; }
template <class T> struct stype;
template <> struct stype<float> { static constexpr ScalarType v = ScalarType::Float; };
template <> struct stype<int> { static constexpr ScalarType v = ScalarType::Int; };
template <> struct stype<int64_t> { static constexpr ScalarType v = ScalarType::Long; };
template <> struct stype<double> { static constexpr ScalarType v = ScalarType::Double; };

struct Storage { void* p = nullptr; std::function<void(void*)> del; ScalarType s = ScalarType::Float; ~Storage() { if (del) del(p); } };
struct Scalar { double d; Scalar(double x) : d(x) {} Scalar(int x) : d(x) {} Scalar(float x) : d(x) {} Scalar(int64_t x) : d((double)x) {} template <class T> T to() const { return (T)d; } };

class Tensor {
 public:
  std::shared_ptr<Storage> st; std::vector<int64_t> sz, sr; int64_t off = 0;
  Tensor() {}
  bool defined() const { return (bool)st; }
  void need() const { if (!st) err("expected a defined tensor"); }
  int64_t dim() const { need(); return (int64_t)sz.size(); }
  int64_t ndimension() const { return dim(); }
  int64_t wrap(int64_t d) const { int64_t n = dim(); if (d < -n || d >= n) err("dimension out of range"); return d < 0 ? d + n : d; }
  int64_t size(int64_t d) const { return sz[wrap(d)]; }
  int64_t stride(int64_t d) const { return sr[wrap(d)]; }
  IntArrayRef sizes() const { need(); return sz; }
  IntArrayRef strides() const { need(); return sr; }
  int64_t numel() const { need(); int64_t n = 1; for (auto x : sz) n *= x; return n; }
  ScalarType scalar_type() const { need(); return st->s; }
  ScalarType dtype() const { return scalar_type(); }
  TensorOptions options() const { return TensorOptions(scalar_type()); }
  Device device() const { return Device(); }
  bool is_cpu() const { return true; } bool is_cuda() const { return false; } bool requires_grad() const { return false; }
  int64_t storage_offset() const { return off; }
  static std::vector<int64_t> dense(const std::vector<int64_t>& s) { std::vector<int64_t> r(s.size()); int64_t n = 1; for (size_t i = s.size(); i-- > 0;) { r[i] = n; n *= std::max<int64_t>(s[i], 1); } return r; }
  bool is_contiguous() const { need(); int64_t n = 1; if (numel() == 0) return true; for (size_t i = sz.size(); i-- > 0;) if (sz[i] != 1) { if (sr[i] != n) return false; n *= sz[i]; } return true; }
  void* data_ptr() const { need(); return (char*)st->p + off * elem(st->s); }
  template <class T> T* data_ptr() const { if (scalar_type() != stype<T>::v) err("expected another scalar type"); return (T*)data_ptr(); }
  template <class T> T* mutable_data_ptr() const { return data_ptr<T>(); }
  template <class T> const T* const_data_ptr() const { return data_ptr<T>(); }
  template <class T> T* data() const { return data_ptr<T>(); }
  double get(const std::vector<int64_t>& ix) const { int64_t o = off; for (size_t i = 0; i < ix.size(); i++) o += ix[i] * sr[i]; return load(o); }
  double load(int64_t o) const { switch (st->s) { case ScalarType::Float: return ((float*)st->p)[o]; case ScalarType::Int: return ((int*)st->p)[o]; case ScalarType::Long: return (double)((int64_t*)st->p)[o]; default: return ((double*)st->p)[o]; } }
  void store(int64_t o, double v) const { switch (st->s) { case ScalarType::Float: ((float*)st->p)[o] = (float)v; break; case ScalarType::Int: ((int*)st->p)[o] = (int)v; break; case ScalarType::Long: ((int64_t*)st->p)[o] = (int64_t)v; break; default: ((double*)st->p)[o] = v; } }
  template <class F> void each(F f) const {                   // f(storage index), row-major order
    int64_t n = numel(); std::vector<int64_t> ix(sz.size(), 0);
    for (int64_t k = 0; k < n; k++) { int64_t o = off; for (size_t i = 0; i < sz.size(); i++) o += ix[i] * sr[i]; f(o); for (size_t i = sz.size(); i-- > 0;) { if (++ix[i] < sz[i]) break; ix[i] = 0; } }
  }
  static Tensor make(const std::vector<int64_t>& s, ScalarType t) {
    Tensor r; r.st = std::make_shared<Storage>(); r.st->s = t; r.sz = s; r.sr = dense(s); int64_t n = 1; for (auto x : s) n *= x;
    void* p = nullptr; if (posix_memalign(&p, 64, std::max<size_t>(1, n * elem(t)))) abort(); memset(p, 0xA5, n * elem(t)); r.st->p = p; r.st->del = [](void* q) { ::free(q); }; return r;
  }
  Tensor alias(std::vector<int64_t> s, std::vector<int64_t> t, int64_t o) const { Tensor r = *this; r.sz = std::move(s); r.sr = std::move(t); r.off = o; return r; }
  Tensor clone() const { Tensor r = make(sz, scalar_type()); int64_t k = 0; each([&](int64_t o) { r.store(k++, load(o)); }); return r; }
  Tensor contiguous() const { return is_contiguous() ? *this : clone(); }
  Tensor detach() const { return *this; } Tensor cpu() const { return *this; } Tensor to(const TensorOptions& o) const { return to(o.s); }
  Tensor to(ScalarType t) const { if (t == scalar_type()) return *this; Tensor r = make(sz, t); int64_t k = 0; each([&](int64_t o) { r.store(k++, load(o)); }); return r; }
  // torch's rule for which reshapes are views
  static bool view_strides(const std::vector<int64_t>& os, const std::vector<int64_t>& ot, const std::vector<int64_t>& ns, std::vector<int64_t>& nt) {
    int64_t n = 1; for (auto x : os) n *= x; if (n == 0) { nt = dense(ns); return true; }
    nt.assign(ns.size(), 0); int64_t vd = (int64_t)ns.size() - 1; if (os.empty()) { nt.assign(ns.size(), 1); return true; }
    int64_t base = ot.back(), tn = 1, vn = 1;
    for (int64_t td = (int64_t)os.size() - 1; td >= 0; td--) {
      tn *= os[td];
      if (td == 0 || (os[td - 1] != 1 && ot[td - 1] != tn * base)) {
        while (vd >= 0 && (vn < tn || ns[vd] == 1)) { nt[vd] = vn * base; vn *= ns[vd]; vd--; }
        if (vn != tn) return false;
        if (td > 0) { base = ot[td - 1]; tn = 1; vn = 1; }
      }
    }
    return vd == -1;
  }
  std::vector<int64_t> infer(const IntArrayRef& s) const { std::vector<int64_t> v = s.v; int64_t k = -1, n = 1; for (size_t i = 0; i < v.size(); i++) if (v[i] == -1) { if (k >= 0) err("only one dimension can be inferred"); k = (int64_t)i; } else { if (v[i] < 0) err("invalid shape"); n *= v[i]; } if (k >= 0) { if (!n || numel() % n) err("shape is invalid for input"); v[k] = numel() / n; n *= v[k]; } if (n != numel()) err("shape is invalid for input of another size"); return v; }
  Tensor view(const IntArrayRef& s) const { auto v = infer(s); std::vector<int64_t> t; if (!view_strides(sz, sr, v, t)) err("view size is not compatible with input tensor's size and stride"); return alias(v, t, off); }
  Tensor reshape(const IntArrayRef& s) const { auto v = infer(s); std::vector<int64_t> t; if (view_strides(sz, sr, v, t)) return alias(v, t, off); Tensor c = clone(); return c.alias(v, dense(v), 0); }
  Tensor view_as(const Tensor& o) const { return view(o.sz); } Tensor reshape_as(const Tensor& o) const { return reshape(o.sz); }
  Tensor flatten(int64_t = 0, int64_t = -1) const { return reshape({numel()}); } Tensor ravel() const { return flatten(); }
  Tensor transpose(int64_t a, int64_t b) const { a = wrap(a); b = wrap(b); Tensor r = *this; std::swap(r.sz[a], r.sz[b]); std::swap(r.sr[a], r.sr[b]); return r; }
  Tensor t() const { if (dim() > 2) err("t() expects a tensor with <= 2 dimensions"); return dim() < 2 ? *this : transpose(0, 1); }
  Tensor select(int64_t d, int64_t i) const { d = wrap(d); if (i < 0) i += sz[d]; if (i < 0 || i >= sz[d]) err("index out of range"); Tensor r = *this; r.off += i * sr[d]; r.sz.erase(r.sz.begin() + d); r.sr.erase(r.sr.begin() + d); return r; }
  Tensor operator[](int64_t i) const { return select(0, i); }
  Tensor slice(int64_t d, int64_t a, int64_t b, int64_t step = 1) const { d = wrap(d); a = std::min(std::max<int64_t>(a, 0), sz[d]); b = std::min(std::max(b, a), sz[d]); Tensor r = *this; r.off += a * sr[d]; r.sz[d] = (b - a + step - 1) / step; r.sr[d] *= step; return r; }
  Tensor narrow(int64_t d, int64_t a, int64_t n) const { return slice(d, a, a + n); }
  Tensor unsqueeze(int64_t d) const { if (d < 0) d += dim() + 1; Tensor r = *this; r.sz.insert(r.sz.begin() + d, 1); r.sr.insert(r.sr.begin() + d, 1); return r; }
  Tensor squeeze() const { Tensor r = *this; r.sz.clear(); r.sr.clear(); for (size_t i = 0; i < sz.size(); i++) if (sz[i] != 1) { r.sz.push_back(sz[i]); r.sr.push_back(sr[i]); } return r; }
  Tensor squeeze(int64_t d) const { d = wrap(d); Tensor r = *this; if (sz[d] == 1) { r.sz.erase(r.sz.begin() + d); r.sr.erase(r.sr.begin() + d); } return r; }
  Tensor expand(const IntArrayRef& s) const {
    if (s.size() < sz.size()) err("expand: too few dimensions"); std::vector<int64_t> a(s.size()), b(s.size()); size_t d = s.size() - sz.size();
    for (size_t i = 0; i < s.size(); i++) { if (i < d) { a[i] = s[i]; b[i] = 0; } else { int64_t n = s[i] == -1 ? sz[i - d] : s[i]; if (sz[i - d] == n) { a[i] = n; b[i] = sr[i - d]; } else if (sz[i - d] == 1) { a[i] = n; b[i] = 0; } else err("the expanded size must match the existing size"); } }
    return alias(a, b, off);
  }
  Tensor expand_as(const Tensor& o) const { return expand(o.sz); }
  template <class T> T item() const { if (numel() != 1) err("a tensor with several elements cannot be converted to a scalar"); return (T)load(off); }
  Scalar item() const { return Scalar(item<double>()); }
  template <class F> Tensor& inplace(const Tensor& o, F f) { o.need(); Tensor e = o.expand(sz); std::vector<double> v; e.each([&](int64_t k) { v.push_back(e.load(k)); }); size_t i = 0; each([&](int64_t k) { store(k, f(load(k), v[i++])); }); return *this; }
  Tensor& add_(const Tensor& o, Scalar a = 1) { return inplace(o, [&](double x, double y) { return (double)((float)x + (float)(a.d * y)); }); }
  Tensor& sub_(const Tensor& o) { return inplace(o, [](double x, double y) { return (double)((float)x - (float)y); }); }
  Tensor& mul_(const Tensor& o) { return inplace(o, [](double x, double y) { return x * y; }); }
  Tensor& copy_(const Tensor& o) { return inplace(o, [](double, double y) { return y; }); }
  Tensor& operator+=(const Tensor& o) { return add_(o); } Tensor& operator-=(const Tensor& o) { return sub_(o); }
  Tensor& fill_(Scalar s) { each([&](int64_t k) { store(k, s.d); }); return *this; }
  Tensor& zero_() { return fill_(0); } Tensor& mul_(Scalar s) { each([&](int64_t k) { store(k, load(k) * s.d); }); return *this; }
  static std::vector<int64_t> bcast(const Tensor& a, const Tensor& b) { std::vector<int64_t> r(std::max(a.sz.size(), b.sz.size())); for (size_t i = 0; i < r.size(); i++) { int64_t x = i < a.sz.size() ? a.sz[a.sz.size() - 1 - i] : 1, y = i < b.sz.size() ? b.sz[b.sz.size() - 1 - i] : 1; if (x != y && x != 1 && y != 1) err("sizes do not broadcast"); r[r.size() - 1 - i] = std::max(x, y); } return r; }
  Tensor add(const Tensor& o, Scalar a = 1) const { need(); o.need(); Tensor r = expand(bcast(*this, o)).clone(); r.add_(o, a); return r; }
  Tensor mul(const Tensor& o) const { need(); o.need(); Tensor r = expand(bcast(*this, o)).clone(); r.mul_(o); return r; }
  Tensor operator+(const Tensor& o) const { return add(o); }
  Tensor sum(const IntArrayRef& ds, bool keep = false) const {
    std::vector<bool> red(sz.size(), ds.size() == 0); for (auto d : ds) red[wrap(d)] = true; std::vector<int64_t> ks, fs; for (size_t i = 0; i < sz.size(); i++) { ks.push_back(red[i] ? 1 : sz[i]); if (!red[i]) fs.push_back(sz[i]); }
    Tensor r = make(ks, scalar_type()); std::vector<double> acc(r.numel(), 0.0); std::vector<int64_t> rs = dense(ks), ix(sz.size(), 0);
    each([&](int64_t o) { int64_t k = 0; for (size_t i = 0; i < sz.size(); i++) if (!red[i]) k += ix[i] * rs[i]; acc[k] += load(o); for (size_t i = sz.size(); i-- > 0;) { if (++ix[i] < sz[i]) break; ix[i] = 0; } });
    for (size_t i = 0; i < acc.size(); i++) r.store((int64_t)i, acc[i]); return keep ? r : r.alias(fs, dense(fs), 0);
  }
  Tensor sum(int64_t d, bool keep = false) const { return sum(IntArrayRef({d}), keep); }
  Tensor sum() const { return sum(IntArrayRef()); }
  Tensor matmul(const Tensor& o) const { if (dim() != 2 || o.dim() != 2 || sz[1] != o.sz[0]) err("matmul: shapes"); Tensor r = make({sz[0], o.sz[1]}, ScalarType::Float); for (int64_t i = 0; i < sz[0]; i++) for (int64_t j = 0; j < o.sz[1]; j++) { double s = 0; for (int64_t k = 0; k < sz[1]; k++) s += get({i, k}) * o.get({k, j}); r.store(i * o.sz[1] + j, s); } return r; }
  Tensor mm(const Tensor& o) const { return matmul(o); }
  template <class T, size_t N> struct Acc { T* p; int64_t o; const int64_t* r; auto operator[](int64_t i) const { if constexpr (N == 1) return std::ref(p[o + i * r[0]]); else return Acc<T, N - 1>{p, o + i * r[0], r + 1}; } };
  template <class T, size_t N> Acc<T, N> accessor() const { return {data_ptr<T>(), 0, sr.data()}; }
};
inline Tensor from_blob(void* p, const IntArrayRef& s, std::function<void(void*)> del, const TensorOptions& o = {}) { Tensor r; r.st = std::make_shared<Storage>(); r.st->p = p; r.st->s = o.s; r.st->del = std::move(del); r.sz = s.v; r.sr = Tensor::dense(s.v); return r; }
inline Tensor from_blob(void* p, const IntArrayRef& s, const TensorOptions& o = {}) { return from_blob(p, s, std::function<void(void*)>(), o); }
inline Tensor from_blob(void* p, const IntArrayRef& s, const IntArrayRef& t, std::function<void(void*)> del, const TensorOptions& o = {}) { Tensor r = from_blob(p, s, std::move(del), o); r.sr = t.v; return r; }
inline Tensor empty(const IntArrayRef& s, const TensorOptions& o = {}) { return Tensor::make(s.v, o.s); }
inline Tensor zeros(const IntArrayRef& s, const TensorOptions& o = {}) { return Tensor::make(s.v, o.s).zero_(); }
inline Tensor ones(const IntArrayRef& s, const TensorOptions& o = {}) { return Tensor::make(s.v, o.s).fill_(1); }
inline Tensor empty_like(const Tensor& t) { return empty(t.sz, t.options()); }
inline Tensor zeros_like(const Tensor& t) { return zeros(t.sz, t.options()); }
inline Tensor matmul(const Tensor& a, const Tensor& b) { return a.matmul(b); }
inline Tensor mm(const Tensor& a, const Tensor& b) { return a.matmul(b); }
inline Tensor add(const Tensor& a, const Tensor& b) { return a.add(b); }
inline Tensor sum(const Tensor& a, const IntArrayRef& d, bool k = false) { return a.sum(d, k); }
inline Tensor sum(const Tensor& a, int64_t d, bool k = false) { return a.sum(d, k); }
constexpr ScalarType kFloat = ScalarType::Float, kFloat32 = ScalarType::Float, kInt = ScalarType::Int, kInt32 = ScalarType::Int, kLong = ScalarType::Long, kInt64 = ScalarType::Long, kDouble = ScalarType::Double, kFloat64 = ScalarType::Double;
constexpr DeviceType kCPU = DeviceType::CPU;
}
namespace torch {
using namespace at; using at::Tensor; using c10::TensorOptions; using c10::IntArrayRef;
inline TensorOptions dtype(ScalarType s) { return TensorOptions(s); }
}
#define TORCH_CHECK(cond, ...) do { if (!(cond)) at::err("check failed: " #cond); } while (0)
#define AT_ASSERTM(cond, ...) TORCH_CHECK(cond)
