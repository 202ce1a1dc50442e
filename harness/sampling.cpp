#include "mocks.hpp"
#include "scene.hpp"
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
using namespace opengv; namespace sap = sac_problems::absolute_pose; namespace srp = sac_problems::relative_pose;
const char* pbt::RULE = "mock problems over random index sets (1-40 members, not ranges; 1-5 cameras) with histories of draws, index-set replacements and validator rejections, 400-4000 draws per distribution case; real problems of every type and algorithm with rand() pinned to chosen values. Counts are judged with the Chernoff bound exp(-34) per count. Non-trivial: more members than the sample takes";

// rand() of the library under test: pinned to a value, or a plain generator
static bool g_pin = false; static int g_pinned = 0; static uint64_t g_state = 1;
extern "C" int rand() noexcept { if (g_pin) return g_pinned; g_state = g_state * 6364136223846793005ull + 1442695040888963407ull; return (int)(g_state >> 33); }
// clocks of the library under test: two calls never return the same, so nothing seeded by them is reproducible by chance
#include <time.h>
static bool g_tick = false; static uint64_t g_now = 1;
extern "C" clock_t clock(void) noexcept { if (g_tick) return (clock_t)(g_now += 1237); struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
extern "C" time_t time(time_t* p) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); time_t t = g_tick ? (time_t)(g_now += 7919) : ts.tv_sec; if (p) *p = t; return t; }
struct Tick { Tick() { g_tick = true; } ~Tick() { g_tick = false; } };
extern "C" void srand(unsigned s) noexcept { g_state = s; g_pin = false; }

// number of successes in M independent trials of probability p; false alarm probability below 2 exp(-34)
static void freq(Ctx& c, const char* key, double cnt, double M, double p, const std::string& what) {
  double q = cnt / M, kl = (q > 0 ? q * std::log(q / p) : 0) + (q < 1 ? (1 - q) * std::log((1 - q) / (1 - p)) : 0); if (p >= 1 || p <= 0) { c.require(p >= 1 ? cnt == M : cnt == 0, key, what, " ", cnt, " of ", M); return; }
  c.require(M * kl <= 34, key, what, " happened ", cnt, " times in ", M, " draws, expected ", M * p); }
static double lchoose(int n, int k) { return std::lgamma(n + 1.0) - std::lgamma(k + 1.0) - std::lgamma(n - k + 1.0); }
static double hyper(int N, int m, int k) { if (k > m || m - k > N - m) return 0; return std::exp(lchoose(m, k) + lchoose(N - m, m - k) - lchoose(N, m)); }
static void subset(Ctx& c, const Ix& smp, const Ix& ix, int m) {
  c.require((int)smp.size() == m, "sample size", smp.size(), " of ", m); std::set<int> a(ix.begin(), ix.end()), b(smp.begin(), smp.end()); c.require(b.size() == smp.size(), "repeated member", str(Eigen::Map<const Eigen::VectorXi>(smp.data(), smp.size()).cast<double>().transpose()));
  for (int x : smp) c.require(a.count(x), "member outside of the index set", x); }
struct Stat { // distribution of the draws of one camera
  int N, m; std::map<int, int> pos; std::vector<std::vector<double>> at; std::vector<double> mem; std::vector<std::vector<double>> pair, lag, lagEnd; std::vector<double> over; Ix prev; double M = 0, L = 0;
  Stat(const Ix& ix, int mm) : N((int)ix.size()), m(mm), at(mm, std::vector<double>(ix.size())), mem(ix.size()), pair(ix.size(), std::vector<double>(ix.size())), lag(pair), lagEnd(pair), over(mm + 1) { for (int i = 0; i < N; i++) pos[ix[i]] = i; }
  void add(const Ix& smp) { Ix z; for (int x : smp) z.push_back(pos[x]); M++; for (int j = 0; j < m; j++) { at[j][z[j]]++; mem[z[j]]++; for (int k = j + 1; k < m; k++) pair[std::min(z[j], z[k])][std::max(z[j], z[k])]++; }
    if (prev.size()) { L++; lag[prev[0]][z[0]]++; lagEnd[prev[m - 1]][z[m - 1]]++; int o = 0; for (int x : z) o += std::count(prev.begin(), prev.end(), x); over[o]++; prev.clear(); } else prev = z; }
  void judge(Ctx& c) { double n = N; for (int i = 0; i < N; i++) { freq(c, "membership not uniform", mem[i], M, m / n, "member " + std::to_string(i)); for (int j = 0; j < m; j++) freq(c, "position not uniform", at[j][i], M, 1 / n, "member " + std::to_string(i) + " at position " + std::to_string(j)); 
      for (int k = i + 1; k < N; k++) freq(c, "pairs not uniform", pair[i][k], M, m * (m - 1) / (n * (n - 1)), "pair"); for (int k = 0; k < N; k++) { freq(c, "draws not independent", lag[i][k], L, 1 / (n * n), "first members of consecutive draws"); freq(c, "draws not independent", lagEnd[i][k], L, 1 / (n * n), "last members of consecutive draws"); } }
    for (int o = 0; o <= m; o++) freq(c, "draws not independent", over[o], L, hyper(N, m, o), "overlap " + std::to_string(o) + " of consecutive draws"); }
};
// a random history before the distribution is measured
template <class P> static void warm(Src& s, P& p, int m) { int k = s.range(0, 6); for (int i = 0; i < k; i++) { int op = s.range(0, 2); if (op == 0) p.setIndices(someIndices(s, m + s.range(0, 20))); else if (op == 1) p.setUniformIndices(m + s.range(0, 20)); else { int it = 0; Ix v; p.getSamples(it, v); } } }
static void distribution(Ctx& c, int N, int m, int M) {
  Src& s = c.s; Mock p(m, s.chance(0.3)); if (s.chance(0.9)) p.reseed(seed64(s)); p.k.seed = seed64(s); p.setUniformIndices(m); warm(s, p, m); Ix ix = someIndices(s, N); if (s.chance(0.3)) { for (int i = 0; i < N; i++) ix[i] = i; p.setUniformIndices(N); } else p.setIndices(ix);
  c.nontrivial(N > m); Ix got = *p.getIndices(); c.require(got == ix, "current index set", ""); p.k.rejectP = s.chance(0.2) ? 0.3 : 0; Stat st(ix, m); int it = 5;
  for (int i = 0; i < M; i++) { Ix v; if (s.chance(0.2)) v.resize(s.range(0, 9)); bool direct = i % 7 == 3; if (direct) { v.assign(m, -1); p.drawIndexSample(v); } else { p.good.clear(); p.getSamples(it, v); if (v.empty()) continue; c.require(p.good.size() && p.good.back().second && p.good.back().first == v, "sample was not accepted by the validator", ""); } subset(c, v, ix, m); st.add(v); }
  c.require(it == 5, "iteration counter changed by a successful draw", it); c.require(*p.getIndices() == ix, "index set changed by drawing", ""); st.judge(c);
}
TEST("distribution", 6000, 120000, [](Ctx& c) { Src& s = c.s; int m = s.range(1, 8), N = m + s.range(0, 20); distribution(c, N, m, 2000); });
TEST("distribution of small sets", 2000, 40000, [](Ctx& c) { Src& s = c.s; int m = s.range(1, 4), N = m + s.range(0, 3); distribution(c, N, m, 8000); });
TEST("histories", 120000, 3000000, [](Ctx& c) { // every step judged on its own
  Src& s = c.s; int m = s.range(1, 9); Mock p(m, s.chance(0.3)); if (s.chance(0.7)) p.reseed(seed64(s)); p.k.seed = seed64(s); Ix ix = someIndices(s, some(s, 0, 30)); p.setIndices(ix); int steps = s.range(1, 25);
  for (int i = 0; i < steps; i++) { int op = s.range(0, 7); if (op == 0) { ix = someIndices(s, some(s, 0, 30)); p.setIndices(ix); } else if (op == 1) { int n = s.range(0, 30); ix.resize(n); std::iota(ix.begin(), ix.end(), 0); p.setUniformIndices(n); } else if (op == 2) { p.size = m = s.range(1, 9); } else if (op == 3) p.k.rejectP = s.pick(std::vector<double>{0, 0.5, 0.9, 1});
    else { p.good.clear(); int it = 3; Ix v; if (s.chance(0.3)) v.resize(s.range(0, 12), -5); p.getSamples(it, v); bool few = (int)ix.size() < m;
      if (few) { c.require(v.empty(), "sample from a too small index set", v.size(), " from ", ix.size(), " asked ", m); c.label("too few"); continue; }
      bool acc = p.good.size() && p.good.back().second; c.require((int)p.good.size() <= p.max_sample_checks_, "validator calls", p.good.size()); for (size_t k = 0; k + 1 < p.good.size(); k++) c.require(!p.good[k].second, "drew again after an accepted sample", ""); for (auto& g : p.good) subset(c, g.first, ix, m);
      if (acc) { c.require(v == p.good.back().first, "sample differs from the accepted one", ""); c.require(it == 3, "iteration counter", it); subset(c, v, ix, m); c.nontrivial((int)ix.size() > m); c.label("sample"); } else { c.require(v.empty(), "rejected sample returned", ""); c.require((int)p.good.size() == p.max_sample_checks_, "gave up early", p.good.size()); c.label("persistently rejected"); } }
    c.require(*p.getIndices() == ix, "index set", ""); }
});
TEST("multi histories", 60000, 1500000, [](Ctx& c) {
  Src& s = c.s; int cams = s.range(1, 5); MultiMock p(Ix(), s.chance(0.3)); if (s.chance(0.7)) p.reseed(seed64(s)); p.k.seed = seed64(s); MIx ix; auto gen = [&] { ix.clear(); for (int k = 0; k < cams; k++) ix.push_back(someIndices(s, s.chance(0.2) ? 0 : s.range(0, 12))); p.setIndices(ix); }; auto sz = [&] { p.sizes.clear(); for (int k = 0; k < cams; k++) p.sizes.push_back(s.chance(0.9) ? std::min<int>(s.range(0, 4), (int)ix[k].size()) : s.range(0, 4)); }; gen(); sz(); int steps = s.range(1, 15);
  for (int i = 0; i < steps; i++) { int op = s.range(0, 6); if (op == 0) { cams = s.range(1, 5); gen(); sz(); } else if (op == 1) { cams = s.range(1, 5); Ix n; ix.assign(cams, Ix()); for (int k = 0; k < cams; k++) { n.push_back(s.range(0, 12)); ix[k].resize(n[k]); std::iota(ix[k].begin(), ix[k].end(), 0); } p.setUniformIndices(n); sz(); } else if (op == 2) p.k.rejectP = s.pick(std::vector<double>{0, 0.5, 1});
    else { p.good.clear(); int it = 3; MIx v; if (s.chance(0.3)) v.resize(s.range(0, 6), Ix(3, -5)); p.getSamples(it, v); bool few = false; for (int k = 0; k < cams; k++) few |= (int)ix[k].size() < p.sizes[k]; if (few) { c.require(v.empty(), "sample from a too small index set", ""); c.label("too few"); continue; }
      auto ok = [&](const MIx& z) { c.require((int)z.size() == cams, "number of cameras", z.size()); for (int k = 0; k < cams; k++) subset(c, z[k], ix[k], p.sizes[k]); }; bool acc = p.good.size() && p.good.back().second; c.require((int)p.good.size() <= p.max_sample_checks_, "validator calls", p.good.size()); for (size_t k = 0; k + 1 < p.good.size(); k++) c.require(!p.good[k].second, "drew again after an accepted sample", ""); for (auto& g : p.good) ok(g.first);
      if (acc) { c.require(v == p.good.back().first, "sample differs from the accepted one", ""); c.require(it == 3, "iteration counter", it); ok(v); c.nontrivial(); c.label("sample"); } else { c.require(v.empty(), "rejected sample returned", ""); c.require((int)p.good.size() == p.max_sample_checks_, "gave up early", p.good.size()); c.label("persistently rejected"); } }
    c.require(*p.getIndices() == ix, "index set", ""); }
});
TEST("multi distribution", 2500, 50000, [](Ctx& c) {
  Src& s = c.s; int cams = s.range(1, 4); Ix sz; MIx ix; for (int k = 0; k < cams; k++) { sz.push_back(s.range(0, 3)); ix.push_back(someIndices(s, sz[k] + s.range(0, 8))); } MultiMock p(sz, s.chance(0.3)); if (s.chance(0.9)) p.reseed(seed64(s)); p.setIndices(ix); c.nontrivial(); std::vector<Stat> st; for (int k = 0; k < cams; k++) st.emplace_back(ix[k], sz[k]); std::vector<std::vector<double>> cross; if (cams > 1 && sz[0] && sz[1]) cross.assign(ix[0].size(), std::vector<double>(ix[1].size())); const int M = 2000;
  for (int i = 0; i < M; i++) { MIx v; int it = 0; p.getSamples(it, v); c.require((int)v.size() == cams, "number of cameras", v.size()); for (int k = 0; k < cams; k++) { subset(c, v[k], ix[k], sz[k]); if (sz[k]) st[k].add(v[k]); } if (cross.size()) cross[st[0].pos[v[0][0]]][st[1].pos[v[1][0]]]++; }
  for (int k = 0; k < cams; k++) if (sz[k]) st[k].judge(c); for (auto& r : cross) for (double x : r) freq(c, "cameras not independent", x, M, 1.0 / (ix[0].size() * ix[1].size()), "pair of cameras");
});
// --- real problems ------------------------------------------------------------------
template <class P> static void fixedSeed(Ctx& c, P& a, P& b, int want) { // two problems with the fixed seed draw the same samples
  c.require(a.getSampleSize() == want, "declared sample size", a.getSampleSize(), " expected ", want); Ix ix = *a.getIndices(); for (int i = 0; i < 12; i++) { Ix u, v; int it = 0; a.getSamples(it, u); b.getSamples(it, v); c.require(u == v, "fixed seed not reproducible", "draw ", i); if ((int)ix.size() < want) c.require(u.empty(), "sample from a too small index set", ""); else subset(c, u, ix, want); }
  Ix sub = ix; sub.resize(ix.size() / 2); std::reverse(sub.begin(), sub.end()); a.setIndices(sub); b.setIndices(sub); c.require(*a.getIndices() == sub, "index set", ""); for (int i = 0; i < 6; i++) { Ix u, v; int it = 0; a.getSamples(it, u); b.getSamples(it, v); c.require(u == v, "fixed seed not reproducible", "after setIndices, draw ", i); if ((int)sub.size() < want) c.require(u.empty(), "sample from a too small index set", ""); else subset(c, u, sub, want); } }
TEST("real single problems", 40000, 800000, [](Ctx& c) {
  Src& s = c.s; int n = s.range(1, 40); RelOpt o; o.n = n; o.cams = 2; RelScene r = relScene(c, o); points_t p1, p2; for (auto& x : r.X) { p1.push_back(x); p2.push_back(r.R.transpose() * (x - r.t)); } absolute_pose::CentralAbsoluteAdapter A(r.f1, p1); relative_pose::CentralRelativeAdapter R(r.f1, r.f2); relative_pose::NoncentralRelativeAdapter N(r.f1, r.f2, r.c1, r.c2, r.rig.off, r.rig.rot); point_cloud::PointCloudAdapter P(p1, p2); c.nontrivial(n > 4); bool sub = s.chance(0.5); Ix ix = shuffled(s, n, s.range(1, n)); Ix uni(n); std::iota(uni.begin(), uni.end(), 0);
#define TWO(T, ARGS, SIZE) { if (sub) { T a(ARGS, ix, false), b(ARGS, ix, false); c.require(*a.getIndices() == ix, "index set given at construction", ""); fixedSeed(c, a, b, SIZE); } else { T a(ARGS, false), b(ARGS, false); c.require(*a.getIndices() == uni, "full index set", ""); fixedSeed(c, a, b, SIZE); } break; }
#define COMMA ,
#define NSUB(ALG, CENT, SIZE) { if (sub) { srp::NoncentralRelativePoseSacProblem a(N, ALG, ix, CENT, false), b(N, ALG, ix, CENT, false); c.require(*a.getIndices() == ix, "index set given at construction", ""); fixedSeed(c, a, b, SIZE); } else { srp::NoncentralRelativePoseSacProblem a(N, ALG, CENT, false), b(N, ALG, CENT, false); c.require(*a.getIndices() == uni, "full index set", ""); fixedSeed(c, a, b, SIZE); } break; }
  Tick tick; typedef sap::AbsolutePoseSacProblem AP; typedef srp::CentralRelativePoseSacProblem CR; typedef srp::NoncentralRelativePoseSacProblem NR; int es = s.range(5, 12);
  switch (s.range(0, 16)) {
    case 0: TWO(AP, A COMMA AP::TWOPT, 2) case 1: TWO(AP, A COMMA AP::KNEIP, 4) case 2: TWO(AP, A COMMA AP::GAO, 4) case 3: TWO(AP, A COMMA AP::EPNP, 6) case 4: TWO(AP, A COMMA AP::GP3P, 4)
    case 5: TWO(CR, R COMMA CR::STEWENIUS, 8) case 6: TWO(CR, R COMMA CR::NISTER, 8) case 7: TWO(CR, R COMMA CR::SEVENPT, 9) case 8: TWO(CR, R COMMA CR::EIGHTPT, 9)
    case 9: NSUB(NR::SIXPT, false, 9) case 10: NSUB(NR::GE, false, 8) case 11: NSUB(NR::SEVENTEENPT, false, 17) case 12: NSUB(NR::SIXPT, true, 8)
    case 13: TWO(srp::EigensolverSacProblem, R COMMA es, es) case 14: TWO(srp::RotationOnlySacProblem, R, 2) case 15: TWO(srp::TranslationOnlySacProblem, R, 2) default: TWO(sac_problems::point_cloud::PointCloudSacProblem, P, 3)
  }
});
TEST("real multi problems", 60000, 1200000, [](Ctx& c) {
  Src& s = c.s; int cams = s.range(1, 7); std::vector<std::shared_ptr<bearingVectors_t>> b1, b2; std::vector<std::shared_ptr<points_t>> pt; translations_t off; rotations_t rot; Ix cnt; for (int k = 0; k < cams; k++) { b1.emplace_back(new bearingVectors_t); b2.emplace_back(new bearingVectors_t); pt.emplace_back(new points_t); int n = s.chance(0.1) ? 0 : s.range(1, 14); cnt.push_back(n); for (int i = 0; i < n; i++) { b1[k]->push_back(unitVec(s)); b2[k]->push_back(unitVec(s)); pt[k]->push_back(vecIn(s, 3)); } off.push_back(vecIn(s, 1)); rot.push_back(M3::Identity()); }
  absolute_pose::NoncentralAbsoluteMultiAdapter A(b1, pt, off, rot); relative_pose::NoncentralRelativeMultiAdapter N(b1, b2, off, rot); relative_pose::CentralRelativeMultiAdapter C(b1, b2); c.nontrivial(cams > 1); typedef srp::MultiNoncentralRelativePoseSacProblem NR;
  auto run = [&](auto& p, int want, int per) { MIx full(cams); for (int k = 0; k < cams; k++) { full[k].resize(cnt[k]); std::iota(full[k].begin(), full[k].end(), 0); } c.require(*p.getIndices() == full, "full index set", ""); std::vector<double> starts(cams); int R = 40;
    for (int i = 0; i < R; i++) { g_pin = s.chance(0.5); if (g_pin) { int w = s.range(0, 2); g_pinned = w == 0 ? 0 : w == 1 ? RAND_MAX : (int)s.below(RAND_MAX); c.label("pinned rand()"); }
      Ix sz = p.getSampleSizes(); c.require((int)sz.size() == cams, "sizes per camera", sz.size()); int t = 0, lo = 1 << 30, hi = 0; for (int x : sz) { t += x; lo = std::min(lo, x); hi = std::max(hi, x); } if (per) { for (int x : sz) c.require(x == per, "declared sample size", x); } else { c.require(t == want, "total sample size", t, " expected ", want); c.require(lo >= 0 && hi - lo <= 1, "sample not spread evenly over the cameras", "from ", lo, " to ", hi); }
      MIx v; int it = 0; Ix cams2; p.getSamples(it, v); if (v.size()) { c.label("sample"); c.require((int)v.size() == cams, "number of cameras", v.size()); int t2 = 0; for (int k = 0; k < cams; k++) { t2 += (int)v[k].size(); subset(c, v[k], full[k], (int)v[k].size()); } c.require(t2 == (per ? per * cams : want), "total drawn", t2); } else { bool couldFail = false; int hiNeed = per ? per : (want + cams - 1) / cams; for (int k = 0; k < cams; k++) couldFail |= cnt[k] < hiNeed; c.require(couldFail, "no sample although every camera has enough members", ""); c.label("camera too small"); } }
    g_pin = false; };
  if (s.chance(0.3)) { // the fixed seed: the same samples again, whatever the time
    Tick tick; int kind = s.range(2, 7); MIx sub; for (int k = 0; k < cams; k++) sub.push_back(shuffled(s, cnt[k], s.range(cnt[k] / 2, cnt[k]))); bool some = s.chance(0.4); int per = s.range(1, 5); std::vector<MIx> log[2]; unsigned sd = (unsigned)s.range(0, 1000);
    auto draw = [&](auto& p, std::vector<MIx>& l) { srand(sd); if (some) p.setIndices(sub); for (int i = 0; i < 12; i++) { MIx v; int it = 0; p.getSamples(it, v); l.push_back(v); } };
    for (int k = 0; k < 2; k++) switch (kind) { case 2: { NR p(N, NR::SIXPT, false, false); draw(p, log[k]); break; } case 3: { NR p(N, NR::GE, false, false); draw(p, log[k]); break; } case 4: { NR p(N, NR::SEVENTEENPT, false, false); draw(p, log[k]); break; } case 5: { NR p(N, NR::SIXPT, true, false); draw(p, log[k]); break; }
      case 6: { srp::MultiCentralRelativePoseSacProblem p(C, per, false); draw(p, log[k]); break; } default: { MultiMock p(Ix(cams, std::min(per, 3))); p.setIndices(sub); draw(p, log[k]); } }
    c.label("fixed seed"); for (int i = 0; i < 12; i++) c.require(log[0][i] == log[1][i], "fixed seed not reproducible", "draw ", i); return; }
  switch (s.range(0, 6)) { case 0: { sap::MultiNoncentralAbsolutePoseSacProblem p(A); run(p, 4, 0); break; } case 1: { sap::MultiNoncentralAbsolutePoseSacProblem p(A, true); run(p, 4, 0); break; }
    case 2: { NR p(N, NR::SIXPT, false, s.chance(0.5)); run(p, 9, 0); break; } case 3: { NR p(N, NR::GE, false, s.chance(0.5)); run(p, 8, 0); break; } case 4: { NR p(N, NR::SEVENTEENPT, false, s.chance(0.5)); run(p, 17, 0); break; } case 5: { NR p(N, NR::SIXPT, true, s.chance(0.5)); run(p, 8, 0); break; }
    default: { int per = s.range(1, 9); srp::MultiCentralRelativePoseSacProblem p(C, per, s.chance(0.5)); run(p, 0, per); } }
});
