#include "mocks.hpp"
#include <climits>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac/Lmeds.hpp>
using namespace opengv::sac;
const char* pbt::RULE = "mock problems (1-60 and now and then up to 700 allowed indices, 1-7 samples per hypothesis, 1-5 cameras) whose hypotheses fail, whose samples are rejected and whose distances (many ties and values equal to the threshold) are hash functions, run 1-4 times on the same estimator object with changing limits, thresholds, probabilities and index sets; the logged call history is judged by an independent model of the estimator. Non-trivial: the run tried at least two hypotheses";

// ---- independent model -----------------------------------------------------------
template <class EST, class PROB, class SAMPLE> struct Judge {
  static void inl(const PROB& p, uint64_t m, double thr, bool le, Ix& out, const Ix& ix, int cam = 0) { for (int i : ix) { double d = mockDist(p.k, m, cam, i); if (le ? d <= thr : d < thr) out.push_back(i); } }
  static Ix inliers(const PROB& p, uint64_t m, double thr, bool le, const Ix& ix) { Ix o; inl(p, m, thr, le, o, ix); return o; }
  static MIx inliers(const PROB& p, uint64_t m, double thr, bool le, const MIx& ix) { MIx o(ix.size()); for (size_t c = 0; c < ix.size(); c++) inl(p, m, thr, le, o[c], ix[c], (int)c); return o; }
  static double median(const PROB& p, uint64_t m, const Ix& ix) { std::vector<double> d; for (int i : ix) { double x = std::max(0.0, mockDist(p.k, m, 0, i)); d.push_back(x * x); } std::sort(d.begin(), d.end()); size_t n = d.size(); return n % 2 ? d[n / 2] : 0.5 * (d[n / 2 - 1] + d[n / 2]); }
  static double median(const PROB&, uint64_t, const MIx&) { return 0; }
  static void run(Ctx& c, EST& est, PROB& p, bool lmeds, bool few, int verb) {
    p.log.clear(); p.good.clear(); bool ok = est.computeModel(verb);
    int rej = 0; size_t acc = 0; bool drawFails = few; for (auto& g : p.good) { rej = g.second ? 0 : rej + 1; acc += g.second; if (rej >= p.max_sample_checks_) drawFails = true; }
    c.require(p.log.size() == (few ? 0 : acc), "hypotheses from samples that were not accepted", p.log.size(), " hypotheses from ", acc, " accepted samples");
    const SAMPLE ix = *p.getIndices(); size_t n = total(ix); long S = 0, F = 0; long maxIt = est.max_iterations_; double k = 1; long best = -1; double bestMed = INFINITY;
    size_t sampleSize = 0; bool stopped = false; const double tol = 1e-9;
    for (size_t j = 0; j < p.log.size(); j++) { auto& L = p.log[j];
      // the estimator must not have been finished already
      bool doneK = !lmeds && (double)S >= k * (1 + tol) && (double)S >= k + tol * std::fabs(k);
      c.require(S < maxIt, "more hypotheses than max_iterations", "already ", S, " hypotheses, max ", maxIt); c.require(F < 10 * maxIt, "too many skipped hypotheses", F, " skipped for max ", maxIt); c.require(!doneK, "continued after the stopping rule", "after ", S, " hypotheses, rule says ", k);
      sampleSize = total(L.sample); if (!L.ok) { F++; continue; } S++;
      if (lmeds) bestMed = std::min(bestMed, median(p, L.id, ix));
      else { long cnt = (long)total(inliers(p, L.id, est.threshold_, false, ix)); if (cnt > best) { best = cnt; double w = (double)best / n, q = 1 - std::pow(w, (double)sampleSize); q = std::min(std::max(q, std::numeric_limits<double>::epsilon()), 1 - std::numeric_limits<double>::epsilon()); k = std::log(1 - est.probability_) / std::log(q); } }
    }
    c.note("S " + std::to_string(S) + " F " + std::to_string(F) + " k " + std::to_string(k) + " max " + std::to_string(maxIt) + " best " + std::to_string(best));
    stopped = S >= maxIt || F >= 10 * maxIt || (!lmeds && (double)S >= k * (1 - tol) - tol);
    c.require(stopped || drawFails, "stopped too early", S, " hypotheses, ", F, " skipped, maximum ", maxIt, ", rule ", k);
    if (S > 1) c.nontrivial(); c.label(S >= maxIt ? "max iterations" : F >= 10 * maxIt ? "skip limit" : drawFails ? "draw failure" : "adaptive stop");
    c.require(ok == (S > 0), "success flag", ok, " after ", S, " hypotheses"); if (!drawFails) c.require(est.iterations_ == S, "iteration count", est.iterations_, " for ", S);
    if (!ok) { c.require(total(est.inliers_) == 0, "failing run with inliers", total(est.inliers_)); c.label("failing run"); return; }
    bool known = false; for (auto& L : p.log) if (L.ok && L.id == est.model_coefficients_ && L.sample == est.model_) known = true;
    c.require(known, "result is not a tried hypothesis with its sample", "");
    if (lmeds) c.require(median(p, est.model_coefficients_, ix) <= bestMed, "not the smallest median", median(p, est.model_coefficients_, ix), " vs ", bestMed);
    else c.require((long)total(inliers(p, est.model_coefficients_, est.threshold_, false, ix)) == best, "not the best hypothesis", total(inliers(p, est.model_coefficients_, est.threshold_, false, ix)), " inliers, best ", best);
    c.require(est.inliers_ == inliers(p, est.model_coefficients_, est.threshold_, lmeds, ix), "inliers", total(est.inliers_), " reported, ", total(inliers(p, est.model_coefficients_, est.threshold_, lmeds, ix)), " expected");
  }
};
static const std::vector<double> PROB = {0.99, 0.5, 0.9, 0.999, 0.0, 1 - 1e-12, 1.0, 0.01};
template <class EST> static void settings(Src& s, EST& e, Knobs& k) {
  e.max_iterations_ = s.chance(0.05) ? 0 : s.chance(0.3) ? s.range(1, 4) : s.range(1, 80); e.probability_ = s.chance(0.5) ? 0.99 : s.chance(0.5) ? s.pick(PROB) : s.from(0, 1); k.seed = seed64(s); if (s.chance(0.15)) { k.neg = s.from(0.02, 0.6); } k.unit = s.pick(std::vector<double>{1, 0.25, 3, 1e-3}); e.threshold_ = k.unit * s.pick(std::vector<double>{1, 1, 1, 0.5, 1.5, 0.7, 0});
  k.failP = s.pick(std::vector<double>{0, 0, 0.3, 0.8, 0.97, 1}); k.rejectP = s.pick(std::vector<double>{0, 0, 0, 0.5, 0.9, 1}); k.good = s.from(0, 1.3); k.levels = s.range(1, 4);
}
template <class EST> static void single(Ctx& c, bool lmeds) {
  Src& s = c.s; int m = s.range(1, 7); auto p = std::make_shared<Mock>(m); p->setIndices(someIndices(s, some(s, 1, 60))); EST own(10, 1.0, 0.9); SampleConsensus<Mock>& e = own; e.sac_model_ = p; int runs = s.range(1, 4);
  for (int r = 0; r < runs; r++) { settings(s, e, p->k); if (r && s.chance(0.4)) { if (s.chance(0.5)) p->setIndices(someIndices(s, some(s, 1, 60))); else p->setUniformIndices(some(s, 1, 60)); } if (s.chance(0.1)) p->size = s.range(1, 9); p->reseed(seed64(s));
    bool noThr = lmeds && s.chance(0.03); if (noThr) { e.threshold_ = std::numeric_limits<double>::max(); bool ok = e.computeModel(0); c.require(!ok, "threshold not set", ""); c.require(e.inliers_.empty(), "failing run with inliers", ""); continue; }
    bool few = (int)p->getIndices()->size() < p->size; Judge<SampleConsensus<Mock>, Mock, Ix>::run(c, e, *p, lmeds, few, s.range(0, 2));
  }
}
static void multi(Ctx& c) {
  Src& s = c.s; int cams = s.range(1, 5); auto gen = [&](MultiMock* p) { MIx ix; Ix sz; for (int i = 0; i < cams; i++) { ix.push_back(s.chance(0.15) ? Ix() : someIndices(s, some(s, 1, 20))); sz.push_back(std::min<int>((int)ix[i].size(), s.range(0, 3))); } if (total(sz) == 0) {} if (p) { p->setIndices(ix); p->sizes = sz; } return std::make_pair(ix, sz); };
  auto p = std::make_shared<MultiMock>(Ix()); gen(p.get()); MultiRansac<MultiMock> own(10, 1.0, 0.9); MultiSampleConsensus<MultiMock>& e = own; e.sac_model_ = p; int runs = s.range(1, 4);
  for (int r = 0; r < runs; r++) { settings(s, e, p->k); if (r && s.chance(0.4)) gen(p.get()); int tot = 0; for (int z : p->sizes) tot += z; if (!tot) { bool f = false; for (size_t i = 0; i < p->sizes.size() && !f; i++) if ((*p->getIndices())[i].size()) { p->sizes[i] = 1; f = true; } if (!f) c.discard(); }
    bool few = false; if (s.chance(0.05)) { size_t q = s.below(p->sizes.size()); p->sizes[q] = (int)(*p->getIndices())[q].size() + s.range(1, 10); few = true; }
    p->reseed(seed64(s)); Judge<MultiSampleConsensus<MultiMock>, MultiMock, MIx>::run(c, e, *p, false, few, s.range(0, 2)); if (few) gen(p.get());
  }
}
TEST("Ransac", 400000, 8000000, [](Ctx& c) { single<Ransac<Mock>>(c, false); });
TEST("Lmeds", 240000, 6000000, [](Ctx& c) { single<Lmeds<Mock>>(c, true); });
TEST("MultiRansac", 300000, 6000000, [](Ctx& c) { multi(c); });
