// Minimal stand-in for pybind11: just enough to register and call the functions of the
// repository's Python module inside a C++ test program.
#pragma once
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/types.h>
namespace pybind11 {
using ssize_t = ::ssize_t; using size_t = std::size_t;
struct Store { bool isList = false, isNone = false; std::vector<size_t> shape; std::vector<double> d; std::vector<std::shared_ptr<Store>> items; };
class object { public: std::shared_ptr<Store> p = std::make_shared<Store>(); };
class list : public object { public: list() { p->isList = true; } template <class T> void append(const T& o) { p->items.push_back(o.p); } size_t size() const { return p->items.size(); } };
class tuple : public list {};
template <class... A> tuple make_tuple(const A&... a) { tuple t; (void)std::initializer_list<int>{(t.append(a), 0)...}; return t; }
struct arg_v; 
struct arg { const char* name; explicit arg(const char* n) : name(n) {} template <class T> arg_v operator=(T v) const; };
struct Val { int kind = 0; /*0 array 1 string 2 number*/ object a; std::string s; double x = 0; Val() {} Val(const object& o) : a(o) {} Val(const char* c) : kind(1), s(c) {} Val(const std::string& c) : kind(1), s(c) {} template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> Val(T v) : kind(2), x(v) {} };
struct arg_v : arg { Val v; arg_v(const arg& a, const Val& w) : arg(a), v(w) {} };
template <class T> arg_v arg::operator=(T v) const { return arg_v(*this, Val(v)); }
template <class T, class = void> struct Caster; // numpy.h adds the array one
template <> struct Caster<std::string> { std::string v; explicit Caster(const Val& x) : v(x.s) { if (x.kind != 1) throw std::invalid_argument("string expected"); } std::string& get() { return v; } };
template <class T> struct Caster<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> { T v; explicit Caster(const Val& x) : v((T)x.x) { if (x.kind != 2) throw std::invalid_argument("number expected"); } T& get() { return v; } };
struct Fn { std::function<object(const std::vector<Val>&)> call; size_t arity = 0; std::vector<std::string> names; std::vector<Val> defaults; std::vector<bool> hasDefault; };
class module_ { public: std::map<std::string, Fn> fns;
  void extra(Fn& f, const arg_v& a) { f.names.push_back(a.name); f.defaults.push_back(a.v); f.hasDefault.push_back(true); }
  void extra(Fn& f, const arg& a) { f.names.push_back(a.name); f.defaults.push_back(Val()); f.hasDefault.push_back(false); }
  void extra(Fn&, const char*) {}
  template <class R, class... A, class... X> module_& def(const char* n, R (*f)(A...), const X&... x) { Fn g; g.arity = sizeof...(A); g.call = [f](const std::vector<Val>& v) { return invoke(f, v, std::index_sequence_for<A...>()); }; (void)std::initializer_list<int>{0, (extra(g, x), 0)...}; fns[n] = g; return *this; }
  template <class R, class... A, size_t... I> static object invoke(R (*f)(A...), const std::vector<Val>& v, std::index_sequence<I...>) { std::tuple<Caster<typename std::decay<A>::type>...> c{Caster<typename std::decay<A>::type>(v.at(I))...}; return f(std::get<I>(c).get()...); }
  // positional arguments; missing trailing ones take their defaults
  object operator()(const std::string& n, std::vector<Val> v) const { auto it = fns.find(n); if (it == fns.end()) throw std::out_of_range("no function " + n); const Fn& f = it->second; while (v.size() < f.arity) { size_t i = v.size(); if (i >= f.hasDefault.size() || !f.hasDefault[i]) throw std::invalid_argument("missing argument"); v.push_back(f.defaults[i]); } if (v.size() > f.arity) throw std::invalid_argument("too many arguments"); return f.call(v); }
};
typedef module_ module;
} // namespace pybind11
#include <tuple>
#define PYBIND11_MODULE(name, var) void pybind11_stub_init_##name(::pybind11::module_& var)
