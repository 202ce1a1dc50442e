// A small property-based testing core: every random decision is drawn from a
// recorded choice sequence, so that each case can be replayed and shrunk.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <random>
#include <sstream>
#include <functional>

namespace pbt {

struct Discard {};
struct Failure { std::string key, msg; };

class Src {
public:
  std::vector<uint64_t> rec;   // choices made so far
  std::vector<uint64_t> fixed; // choices to replay (exhausted -> 0)
  bool replay = false;
  std::mt19937_64 rng;
  explicit Src(uint64_t seed) : rng(seed) {}
  explicit Src(const std::vector<uint64_t>& f) : fixed(f), replay(true) {}
  // one choice in [0,n)
  uint64_t below(uint64_t n) {
    if (n <= 1) n = 1;
    uint64_t v = replay ? (rec.size() < fixed.size() ? fixed[rec.size()] % n : 0) : rng() % n;
    rec.push_back(v);
    return v;
  }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); } // simplest: lo
  // uniform in [lo,hi]; choice 0 is the middle
  double real(double lo, double hi) {
    uint64_t v = below(1ull << 40);
    double z = (v & 1) ? -(double)((v + 1) >> 1) : (double)(v >> 1);
    return 0.5 * (lo + hi) + 0.5 * (hi - lo) * (z / (double)(1ull << 39));
  }
  // uniform in [lo,hi]; choice 0 is lo
  double from(double lo, double hi) { return lo + (hi - lo) * ((double)below(1ull << 40) / (double)(1ull << 40)); }
  bool chance(double p) { return below(65536) >= (uint64_t)((1.0 - p) * 65536.0); }
  double gauss() {
    double u = (double)(below(1ull << 40)) / (double)(1ull << 40), v = (double)below(1ull << 40) / (double)(1ull << 40);
    return std::sqrt(-2.0 * std::log(1.0 - u)) * std::cos(6.283185307179586 * v);
  }
  double logreal(double lo, double hi) { return std::exp(from(std::log(lo), std::log(hi))); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

class Ctx {
public:
  Src& s;
  bool verbose = false, nontriv = false, discarded = false;
  std::vector<std::pair<std::string, double>> metrics;
  std::vector<std::pair<std::string, bool>> softs;
  std::vector<std::string> labels;
  std::ostringstream notes;
  explicit Ctx(Src& src) : s(src) {}
  void discard() { throw Discard(); }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void label(const std::string& l) { labels.push_back(l); }
  void metric(const std::string& n, double v) { metrics.push_back({n, v}); }
  void soft(const std::string& n, bool ok) { softs.push_back({n, ok}); }
  template <class T> void note(const T& t) { if (verbose) notes << t << "\n"; }
  void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
  template <class... A> void require(bool ok, const std::string& key, const A&... a) {
    if (ok) return;
    std::ostringstream o; o.precision(17); (void)std::initializer_list<int>{((o << a), 0)...};
    throw Failure{key, o.str()};
  }
};

struct Agg {
  std::map<std::string, std::vector<double>> metrics;             // sorted
  std::map<std::string, std::pair<uint64_t, uint64_t>> softs;     // bad,total
  std::vector<Failure> fails;
  size_t count(const std::string& m) { return metrics[m].size(); }
  double quantile(const std::string& m, double q) {
    auto& v = metrics[m]; if (v.empty()) return NAN;
    size_t i = (size_t)(q * (v.size() - 1) + 0.5); return v[i];
  }
  double mean(const std::string& m) { auto& v = metrics[m]; double s = 0; for (double x : v) s += x; return v.empty() ? NAN : s / v.size(); }
  double badfrac(const std::string& m) { auto& p = softs[m]; return p.second ? (double)p.first / p.second : NAN; }
  void require(bool ok, const std::string& key, const std::string& msg) { if (!ok) fails.push_back({key, msg}); }
  // quantile of a metric must not exceed a bound
  void atMost(const std::string& m, double q, double bound);
  void softAtMost(const std::string& m, double frac);
  void seen(const std::string& m, size_t n); // at least n observations, otherwise the check is vacuous
};

struct Test {
  const char* name;
  size_t quick, thorough;
  std::function<void(Ctx&)> fn;
  std::function<void(Agg&)> fin;
};
std::vector<Test>& tests();
struct Reg {
  Reg(const char* n, size_t q, size_t t, std::function<void(Ctx&)> f, std::function<void(Agg&)> fin = nullptr) { tests().push_back({n, q, t, f, fin}); }
};
extern const char* RULE; // set by each harness: how cases are made, what is non-trivial
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define TEST(...) static pbt::Reg PBT_CAT(reg_, __COUNTER__)(__VA_ARGS__)
} // namespace pbt
