// Mock sample-consensus problems: hypotheses, failures, validator verdicts and
// distances are pure functions of a seed, and every call is logged.
#pragma once
#include "geo.hpp"
#include <set>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
typedef std::vector<int> Ix; typedef std::vector<Ix> MIx;
inline uint64_t hmix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull; x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; return x ^ (x >> 31); }
inline double h01(uint64_t a, uint64_t b) { return (double)(hmix(a, b) >> 11) / 9007199254740992.0; }
inline uint64_t hv(uint64_t h, const Ix& v) { for (int x : v) h = hmix(h, x); return h; }
inline uint64_t hv(uint64_t h, const MIx& v) { for (auto& x : v) h = hv(hmix(h, 77), x); return h; }
inline size_t total(const Ix& v) { return v.size(); }
inline size_t total(const MIx& v) { size_t n = 0; for (auto& x : v) n += x.size(); return n; }
template <class SAMPLE> struct Call { SAMPLE sample; bool ok; uint64_t id; };
struct Knobs { uint64_t seed = 0; double failP = 0, rejectP = 0, good = 0.5; int levels = 3; double unit = 1; bool failFirst = false; double neg = 0; /* share of distances below zero: they count as zero */ };
// distance of correspondence i (of camera cam) to hypothesis id: a small multiple of half the unit, ties and equality with the unit included
inline double mockDist(const Knobs& k, uint64_t id, int cam, int i) {
  double q = h01(hmix(id, 991), k.seed); double u = h01(hmix(id, 13 * cam + 5), i);
  return (k.neg > 0 && h01(hmix(id, 77 + cam), i) < k.neg ? -1 : 1) * k.unit * 0.5 * (u < q * k.good * 2 ? (double)(hmix(id, i + 31 * cam) % 2) : 2 + (double)(hmix(id, i + 31 * cam) % k.levels)); }
struct Mock : opengv::sac::SampleConsensusProblem<uint64_t> {
  Knobs k; int size; mutable std::vector<Call<Ix>> log; mutable std::vector<std::pair<Ix, bool>> good; mutable int emptied = 0, scored = 0;
  Mock(int n, bool rs = false) : SampleConsensusProblem<uint64_t>(rs), size(n) {}
  bool isSampleGood(const Ix& s) const override { bool g = h01(hmix(k.seed, good.size() + 3), 7) >= k.rejectP; good.push_back({s, g}); return g; }
  int getSampleSize() const override { return size; }
  bool computeModelCoefficients(const Ix& s, uint64_t& m) const override { m = hv(hmix(k.seed, log.size()), s); bool ok = h01(m, 5) >= k.failP; log.push_back({s, ok, m}); return ok; }
  void optimizeModelCoefficients(const Ix&, const uint64_t& m, uint64_t& o) override { o = m; }
  void getSelectedDistancesToModel(const uint64_t& m, const Ix& ix, std::vector<double>& s) const override { scored++; for (int i : ix) s.push_back(mockDist(k, m, 0, i)); }
  void reseed(uint64_t s) { auto e = std::make_shared<std::mt19937_64>(s); rng_gen_.reset(new std::function<int()>([e] { return (int)((*e)() >> 33); })); }
};
struct MultiMock : opengv::sac::MultiSampleConsensusProblem<uint64_t> {
  Knobs k; Ix sizes; mutable std::vector<Call<MIx>> log; mutable std::vector<std::pair<MIx, bool>> good;
  MultiMock(const Ix& n, bool rs = false) : MultiSampleConsensusProblem<uint64_t>(rs), sizes(n) {}
  bool isSampleGood(const MIx& s) const override { bool g = h01(hmix(k.seed, good.size() + 3), 7) >= k.rejectP; good.push_back({s, g}); return g; }
  Ix getSampleSizes() const override { return sizes; }
  bool computeModelCoefficients(const MIx& s, uint64_t& m) const override { m = hv(hmix(k.seed, log.size()), s); bool ok = h01(m, 5) >= k.failP; log.push_back({s, ok, m}); return ok; }
  void optimizeModelCoefficients(const MIx&, const uint64_t& m, uint64_t& o) override { o = m; }
  void getSelectedDistancesToModel(const uint64_t& m, const MIx& ix, std::vector<std::vector<double>>& s) const override { for (size_t c = 0; c < ix.size(); c++) for (int i : ix[c]) s[c].push_back(mockDist(k, m, (int)c, i)); }
  void reseed(uint64_t s) { auto e = std::make_shared<std::mt19937_64>(s); rng_gen_.reset(new std::function<int()>([e] { return (int)((*e)() >> 33); })); }
};
// distinct integers in random order, not a range
inline int some(Src& s, int lo, int hi) { return s.chance(0.03) ? s.range(hi + 1, 10 * hi + 100) : s.range(lo, hi); } // now and then many
inline Ix someIndices(Src& s, int n) { Ix v; int x = s.range(0, 5); for (int i = 0; i < n; i++) { v.push_back(x); x += 1 + (s.chance(0.4) ? s.range(1, 9) : 0); } for (int i = 0; i + 1 < n; i++) std::swap(v[i], v[i + s.below(n - i)]); return v; }
inline uint64_t seed64(Src& s) { return s.below(1ull << 40); }
