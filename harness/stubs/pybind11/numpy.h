#pragma once
#include "pybind11.h"
namespace pybind11 {
class array : public object { public: enum { c_style = 1, f_style = 2, forcecast = 16 };
  ssize_t ndim() const { return (ssize_t)p->shape.size(); } ssize_t size() const { return (ssize_t)p->d.size(); } ssize_t shape(ssize_t i) const { if (i < 0 || (size_t)i >= p->shape.size()) throw std::out_of_range("shape"); return (ssize_t)p->shape[i]; } };
template <class T, int F = array::forcecast> class array_t : public array { public:
  static_assert(std::is_same<T, double>::value, "only doubles are supported by the stand-in");
  void init(std::vector<size_t> s) { p->shape = s; size_t n = 1; for (auto x : s) n *= x; p->d.assign(n, 0.0); }
  array_t() { init({0}); } array_t(const object& o) { p = o.p; }
  template <class S, class = typename std::enable_if<std::is_integral<S>::value>::type> array_t(std::initializer_list<S> s) { std::vector<size_t> v; for (auto x : s) v.push_back((size_t)x); init(v); }
  template <class S, class = typename std::enable_if<std::is_integral<S>::value>::type> array_t(const std::vector<S>& s) { init(std::vector<size_t>(s.begin(), s.end())); }
  template <class... I> size_t off(I... i) const { size_t ix[] = {(size_t)i..., 0}, n = sizeof...(I), o = 0; if (n > p->shape.size()) throw std::out_of_range("too many indices"); for (size_t k = 0; k < p->shape.size(); k++) { size_t v = k < n ? ix[k] : 0; if (k < n && v >= p->shape[k]) throw std::out_of_range("index out of range"); o = o * p->shape[k] + v; } return o; }
  template <class... I> const T* data(I... i) const { return p->d.data() + off(i...); }
  template <class... I> T* mutable_data(I... i) { return p->d.data() + off(i...); }
  template <class... I> const T& at(I... i) const { return p->d[off(i...)]; }
  template <class... I> T& mutable_at(I... i) { return p->d[off(i...)]; } };
template <int F> struct Caster<array_t<double, F>, void> { array_t<double, F> v; explicit Caster(const Val& x) : v(x.a) { if (x.kind != 0 || x.a.p->isList) throw std::invalid_argument("array expected"); } array_t<double, F>& get() { return v; } };
} // namespace pybind11
