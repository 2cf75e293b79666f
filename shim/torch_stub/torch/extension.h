#pragma once
#include "torch.h"
#include <tuple>
#include <utility>
// the module records its functions by name, so that a harness can reach them as Python would
namespace pybind11 {
typedef std::vector<at::Tensor> Result;
struct Fn { std::string name; std::function<Result(std::vector<at::Tensor>)> call; size_t nargs = 0; };
struct arg { const char* n; explicit arg(const char* s) : n(s) {} template <class T> arg& operator=(const T&) { return *this; } };
struct none {};
struct gil_scoped_release {}; template <class T> struct call_guard {};
inline Result wrap(at::Tensor t) { return {t}; }
inline Result wrap(std::vector<at::Tensor> v) { return v; }
template <class... A> inline Result wrap(std::tuple<A...> t) { return std::apply([](auto... a) { return Result{a...}; }, t); }
template <class R, class... A, size_t... I> Result invoke(R (*f)(A...), std::vector<at::Tensor>& a, std::index_sequence<I...>) { return wrap(f(a[I]...)); }
struct module_ {
  std::vector<Fn> fns;
  template <class R, class... A, class... X> module_& def(const char* n, R (*f)(A...), const X&...) {
    Fn k; k.name = n; k.nargs = sizeof...(A);
    k.call = [f](std::vector<at::Tensor> a) { if (a.size() != sizeof...(A)) at::err("incompatible function arguments"); return invoke(f, a, std::index_sequence_for<A...>()); };
    fns.push_back(k); return *this;
  }
};
typedef module_ module;
}
namespace py = pybind11;
#define TORCH_EXTENSION_NAME linear_cpp
#define PYBIND11_MODULE(name, var) void extension_init(pybind11::module_& var)
