#include "problems.hpp"
#include <set>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
const char* pbt::RULE = "every problem type and algorithm on generated scenes (noise, gross outliers, 1-6 cameras, cameras with no correspondences), scored for true, perturbed and arbitrary hypotheses over random index lists (subsets, permutations, repetitions) and after random priors and foreign hypotheses; the reference score is computed from the geometry. Correspondences whose viewing rays are parallel within 1e-3 under the hypothesis are skipped. Non-trivial: at least two scored correspondences of distinct scores";

static M34 anyHyp(Src& s, const M34& T, bool rotOnly) { int k = s.range(0, 3); M34 h = T; if (k == 1) h = pose(T.leftCols<3>() * rotUpTo(s, 0.2), T.col(3) + vecIn(s, 0.3)); else if (k == 2) h = pose(anyRot(s), vecIn(s, 4)); else if (k == 3) h = pose(rotUpTo(s, M_PI) , unitVec(s) * s.logreal(1e-2, 1e2)); if (rotOnly) h.col(3).setZero(); return h; }
static void dirty(Src& s, ProblemData& d, int kind) { double e = s.chance(0.4) ? 0 : s.logreal(1e-4, 0.1), out = s.chance(0.5) ? 0 : 0.4; if (isAbs(kind)) { if (e > 0) d.a.noise(s, e); for (auto& f : d.a.f) if (s.chance(out)) f = unitVec(s); } else if (kind == CLOUD) { for (auto& p : d.p1) p += s.chance(out) ? vecIn(s, 5) : rv(s, e); } else { if (e > 0) d.r.noise(s, e); for (auto& f : d.r.f1) if (s.chance(out)) f = unitVec(s); for (auto& f : d.r.f2) if (s.chance(out)) f = unitVec(s); } }
// judge a list of scores against the reference
static void judge(Ctx& c, int kind, const ProblemData& d, const M34& h, const Ix& ix, const std::vector<double>& sc, const char* what) {
  c.require(sc.size() == ix.size(), std::string(what) + ": number of scores", sc.size(), " for ", ix.size()); std::set<long> distinct; int scored = 0;
  for (size_t k = 0; k < ix.size(); k++) { double cond, ref = refScore(kind, d, h, ix[k], &cond); if (!(cond > 1e-3) || !std::isfinite(ref)) { c.label("skipped (parallel rays)"); continue; } double tol = kind == CLOUD ? 1e-9 * (1 + ref) : 1e-9 / (cond * cond); c.require(std::fabs(sc[k] - ref) <= tol, what, "correspondence ", ix[k], " at position ", k, ": ", sc[k], " expected ", ref); scored++; distinct.insert(std::lround(ref * 1e7)); }
  if (distinct.size() > 1) c.nontrivial(); }
static void run(Ctx& c, int kind) {
  Src& s = c.s; c.label(kindName[kind]); GenOpt o; o.n = s.chance(0.01) ? s.range(26, 300) : s.range(1, 25); if (isRig(kind)) o.cams = s.range(1, 6); o.maxRot = M_PI; ProblemData d = genData(c, kind, o); dirty(s, d, kind); int n = o.n; if (kind >= STEWENIUS && kind <= TRANSONLY) { d.w.resize(n); for (auto& w : d.w) w = s.from(0, 1); }
  ProbOpt po; po.adapterVariant = s.range(0, 1); po.useRestrict = s.chance(0.5); if (po.useRestrict) po.restrict_ = shuffled(s, n, s.range(1, n)); auto p = makeProblem(kind, d, po); M34 T = truthOf(kind, d); std::vector<double> data0 = p->data(); int steps = s.range(1, 5);
  for (int k = 0; k < steps; k++) { if (s.chance(0.4)) p->setPrior(pose(anyRot(s), vecIn(s, 3))); if (s.chance(0.3)) { po.useRestrict = true; po.restrict_ = shuffled(s, n, s.range(1, n)); p->setIndices(po.restrict_); }
    M34 h = anyHyp(s, T, kind == ROTONLY); Ix ix; int m = s.range(0, s.chance(0.03) ? 300 : 12); for (int i = 0; i < m; i++) ix.push_back(s.range(0, n - 1)); judge(c, kind, d, h, ix, p->scores(h, ix), "score of a selected correspondence");
    Ix all = p->indices(); Ix want; if (po.useRestrict) want = p->grouped(po.restrict_); else { want.resize(n); std::iota(want.begin(), want.end(), 0); } c.require(all == want, "index set", ""); std::vector<double> sa = p->allScores(h); judge(c, kind, d, h, all, sa, "score of an allowed correspondence");
    // counting and selecting agree with the scores they are made of, at thresholds equal to a score as well
    double thr = s.chance(0.4) && sa.size() ? sa[s.below(sa.size())] : s.logreal(1e-8, 2); Ix sel = p->select(h, thr), exp; for (size_t i = 0; i < sa.size(); i++) if (sa[i] < thr) exp.push_back(all[i]); c.require(sel == exp, "selected within distance", sel.size(), " selected, ", exp.size(), " expected"); c.require(p->count(h, thr) == (int)exp.size(), "counted within distance", p->count(h, thr), " expected ", exp.size()); }
  c.require(p->data() == data0, "user data changed", "");
}
#define K(k, q, t) TEST(#k, q, t, [](Ctx& c) { run(c, k); });
K(KNEIP, 200000, 2400000) K(GP3P, 200000, 2400000) K(MABS, 200000, 2400000) K(MABS_C, 80000, 900000) K(STEWENIUS, 160000, 1800000) K(EIGEN, 160000, 1800000) K(ROTONLY, 160000, 1800000) K(TRANSONLY, 160000, 1800000) K(N17, 240000, 2400000) K(NCENT, 120000, 1200000) K(M17, 240000, 2400000) K(MCENT, 120000, 1200000) K(CLOUD, 160000, 1800000)
TEST("other algorithms", 240000, 2400000, [](Ctx& c) { run(c, c.s.range(0, KINDS - 1)); });
TEST("pairs of views (MultiCentralRelative)", 120000, 2000000, [](Ctx& c) { // one hypothesis per pair
  Src& s = c.s; int pairs = s.range(1, 5); std::vector<std::shared_ptr<bearingVectors_t>> b1, b2; std::vector<ProblemData> d(pairs); opengv::transformations_t h; for (int k = 0; k < pairs; k++) { GenOpt o; o.n = s.range(0, 8); o.maxRot = M_PI; d[k] = genData(c, STEWENIUS, o); dirty(s, d[k], STEWENIUS); b1.emplace_back(new bearingVectors_t(d[k].r.f1)); b2.emplace_back(new bearingVectors_t(d[k].r.f2)); h.push_back(anyHyp(s, truthOf(STEWENIUS, d[k]), false)); }
  opengv::relative_pose::CentralRelativeMultiAdapter A(b1, b2); typedef opengv::sac_problems::relative_pose::MultiCentralRelativePoseSacProblem P; MIx sub(pairs); for (int k = 0; k < pairs; k++) sub[k] = shuffled(s, (int)d[k].r.n(), s.range(0, (int)d[k].r.n())); bool r = s.chance(0.5); std::unique_ptr<P> p(r ? new P(A, sub, 5, false) : new P(A, 5, false));
  MIx ix(pairs); for (int k = 0; k < pairs; k++) if (d[k].r.n()) for (int i = s.range(0, 8); i > 0; i--) ix[k].push_back(s.range(0, (int)d[k].r.n() - 1)); std::vector<std::vector<double>> sc(pairs); p->getSelectedDistancesToModel(h, ix, sc); for (int k = 0; k < pairs; k++) judge(c, STEWENIUS, d[k], h[k], ix[k], sc[k], "score of a selected correspondence");
  MIx all = *p->getIndices(); if (r) c.require(all == sub, "index set", ""); sc.assign(pairs, {}); p->getDistancesToModel(h, sc); int cnt = 0; double thr = s.logreal(1e-6, 2); for (int k = 0; k < pairs; k++) { judge(c, STEWENIUS, d[k], h[k], all[k], sc[k], "score of an allowed correspondence"); for (double x : sc[k]) cnt += x < thr; } c.require(p->countWithinDistance(h, thr) == cnt, "counted within distance", ""); MIx sel; p->selectWithinDistance(h, thr, sel); for (int k = 0; k < pairs; k++) { Ix e; for (size_t i = 0; i < sc[k].size(); i++) if (sc[k][i] < thr) e.push_back(all[k][i]); c.require(sel[k] == e, "selected within distance", "pair ", k); }
});
