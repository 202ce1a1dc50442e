#include "scene.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
using namespace opengv; namespace rp = opengv::relative_pose;
const char* pbt::RULE = "rigs of 2-8 cameras in general position, correspondences within or across cameras, motions with non-zero rotation and translation, ordered index subsets. Non-trivial: the generalized epipolar constraints determine the motion (sigma_min bound)";
static RelScene make(Ctx& c, int cams, int n, double maxRot, double spread) {
  RelOpt o; o.n = n; o.cams = cams; o.spread = spread; o.maxRot = maxRot; o.cross = c.s.chance(0.5); o.structured = c.s.chance(0.3); if (c.s.chance(0.3)) o.scale = c.s.logreal(1e-3, 1e3); return relScene(c, o);
}
static void note(Ctx& c, const RelScene& a, const std::vector<int>& idx) { c.note("R=" + str(a.R) + " t=" + str(a.t) + " cameras " + std::to_string(a.rig.off.size()) + " used " + std::to_string(idx.size()) + " of " + std::to_string(a.n())); }
struct Ad { rp::NoncentralRelativeAdapter a; Ad(const RelScene& s, const M3& R = M3::Identity()) : a(s.f1, s.f2, s.c1, s.c2, s.rig.off, s.rig.rot, R) {} };
// --- 17 points ---------------------------------------------------------------------
static double seventeen(const RelScene& a, const std::vector<int>& idx, bool all, M3* out = 0) {
  Ad ad(a); M34 T = all ? rp::seventeenpt(ad.a) : rp::seventeenpt(ad.a, idx); if (out) *out = T.leftCols<3>(); double sc = 0; for (int i : idx) sc += a.X[i].norm(); sc /= idx.size(); double e = std::max(rotErr(T.leftCols<3>(), a.R), (V3(T.col(3)) - a.t).norm() / sc); return std::isnan(e) ? INFINITY : e;
}
TEST("seventeenpt", 100000, 1000000, [](Ctx& c) {
  Src& s = c.s; int n = s.range(17, s.chance(0.03) ? 300 : 40); RelScene a = make(c, s.range(4, 8), n, s.chance(0.5) ? 0.7 : M_PI, s.chance(0.5) ? 0.5 : 2); bool all = s.chance(0.5); std::vector<int> idx = shuffled(s, n, all ? n : s.range(17, n)); if (all) std::sort(idx.begin(), idx.end());
  auto ok = [&](const RelScene& b) { return rigPosed(b, idx, 1e-2) && rotErr(b.R, M3::Identity()) > 0.02 && lin17(b, idx) > 1e-3; }; if (!ok(a)) c.discard(); c.nontrivial(); note(c, a, idx);
  M3 R; double e = seventeen(a, idx, all, &R); c.require(isRot(R, 1e-6), "proper rotation", str(R)); 
  accuracy(c, "truth", e, 1e-5, a, [&](const RelScene& b) { return ok(b) ? seventeen(b, idx, all) : 0.0; });
}, [](pbt::Agg& a) { accuracyBounds(a, "truth", 1e-14, 5e-14, 0.001); });
// weakly determined (small rigs, distant points, little rotation): the error stays proportional to the rounding errors
TEST("seventeenpt weak", 60000, 600000, [](Ctx& c) {
  Src& s = c.s; int n = s.range(17, 40); RelScene a = make(c, s.range(4, 8), n, s.logreal(0.01, M_PI), s.logreal(0.003, 0.5)); std::vector<int> idx = shuffled(s, n, s.range(17, n)); if (s.chance(0.5)) { V3 u = unitVec(s); double q = 1 - s.logreal(1e-4, 0.3); bool line = s.chance(0.5); for (auto& o : a.rig.off) { V3 al = u * u.dot(o); o -= q * (line ? V3(o - al) : al); } a.measure(); c.label(line ? "nearly collinear rig" : "nearly flat rig"); } double k = lin17(a, idx);
  if (!(k > 1e-6 && k < 3e-3) || rotErr(a.R, M3::Identity()) < 1e-3) c.discard(); c.nontrivial(); note(c, a, idx); M3 R; double e = seventeen(a, idx, false, &R); c.require(isRot(R, 1e-6), "proper rotation", str(R)); c.metric("error times conditioning", e * k); c.metric("error", e); c.soft("error", e < 1e-5);
}, [](pbt::Agg& a) { a.seen("error", 500); a.atMost("error times conditioning", 0.5, 3e-17); a.atMost("error times conditioning", 0.9, 5e-16); a.atMost("error", 0.5, 1e-13); a.atMost("error", 0.9, 5e-12); a.softAtMost("error", 0.001); });
// --- 6 points ------------------------------------------------------------------------
static double six(const RelScene& a, const std::vector<int>& idx, bool all, int* n = 0, double* orth = 0) {
  Ad ad(a); rotations_t l = all ? rp::sixpt(ad.a) : rp::sixpt(ad.a, idx); double b = INFINITY; if (n) *n = l.size(); for (auto& R : l) { if (orth && finite(R)) *orth = std::max(*orth, orthoErr(R)); double e = rotErr(R, a.R); if (e < b) b = e; } return b;
}
TEST("sixpt", 150000, 1000000, [](Ctx& c) {
  Src& s = c.s; bool all = s.chance(0.4); int n = all ? 6 : s.range(6, 9); RelScene a = make(c, s.range(3, 6), n, s.chance(0.7) ? 0.7 : 2.5, s.chance(0.5) ? 0.5 : 2); std::vector<int> idx = shuffled(s, n, 6); if (all) std::sort(idx.begin(), idx.end());
  auto ok = [&](const RelScene& b) { return rigPosed(b, idx, 3e-2); }; if (!ok(a)) c.discard(); c.nontrivial(); note(c, a, idx);
  int k; double orth = 0, e = six(a, idx, all, &k, &orth); c.metric("n", k); c.require(k <= 64, "count", k); c.require(orth < 1e-6, "proper rotations", orth);
  c.metric("truth", e); c.soft("truth", e < 1e-3); c.soft(rotErr(a.R, M3::Identity()) > 0.8 ? "truth, rotation > 0.8" : "truth, rotation < 0.8", e < 1e-3); c.soft(a.c1 == a.c2 ? "truth, same camera" : "truth, across cameras", e < 1e-3);
}, [](pbt::Agg& a) { accuracyBounds(a, "truth", 2e-6, 2e-3, 0.12); a.softAtMost("truth, across cameras", 0.09); a.softAtMost("truth, same camera", 0.25); a.softAtMost("truth, rotation < 0.8", 0.1); a.softAtMost("truth, rotation > 0.8", 0.2); });
// --- generalized eigensolver -----------------------------------------------------------
struct GeRes { double err = 0, ev = 0, gap = 0; M3 R; geOutput_t o; };
static GeRes geRun(const RelScene& a, const std::vector<int>& idx, bool all, bool w) {
  GeRes r; Ad ad(a); srand(1); r.R = all ? rp::ge(ad.a, r.o, w) : rp::ge(ad.a, idx, r.o, w); double sc = 0; for (int i : idx) sc += a.X[i].norm(); sc /= idx.size();
  r.err = std::max(rotErr(r.R, a.R), (V3(r.o.translation.head<3>()) - a.t).norm() / sc); if (std::isnan(r.err)) r.err = INFINITY; return r;
}
// a user-defined adapter that stores weights: wrong correspondences of weight zero do not count
struct WeightedAd : rp::NoncentralRelativeAdapter { std::vector<double> w; WeightedAd(const RelScene& s, const std::vector<double>& w) : rp::NoncentralRelativeAdapter(s.f1, s.f2, s.c1, s.c2, s.rig.off, s.rig.rot), w(w) {} double getWeight(size_t i) const override { return w[i]; } };
TEST("ge weights", 60000, 1000000, [](Ctx& c) {
  Src& s = c.s; int n = s.range(16, 50); RelScene a = make(c, s.range(3, 6), n, 0.3, s.chance(0.5) ? 0.5 : 1.5); a.t *= 0.5; double unit = 0; for (auto& X : a.X) unit += X.norm() / n; for (auto& X : a.X) if (X.norm() < 0.25 * unit) c.discard(); a.measure();
  auto idx = shuffled(s, n, s.range(14, n)); std::vector<int> good; std::vector<double> w(n); double m = s.logreal(0.01, 100);
  for (int i = 0; i < n; i++) { w[i] = m * s.from(0.3, 1.0); if (s.chance(0.15)) { w[i] = 0; a.f2[i] = perturb(s, a.f2[i], 0.15); } } for (int i : idx) if (w[i] > 0) good.push_back(i);
  if (good.size() == idx.size() || good.size() < 12 || !rigPosed(a, good, 3e-2)) c.discard(); c.nontrivial(); note(c, a, idx);
  bool all = idx.size() == (size_t)n; WeightedAd ad(a, w); srand(1); geOutput_t o; o.rotation = M3::Identity(); M3 R = all && s.chance(0.5) ? rp::ge(ad, o, true) : rp::ge(ad, idx, o, true); double sc = 0; for (int i : good) sc += a.X[i].norm(); sc /= good.size();
  double e = std::max(rotErr(R, a.R), (V3(o.translation.head<3>()) - a.t).norm() / sc); if (std::isnan(e)) e = INFINITY; c.metric("truth", e); c.soft("truth", e < 0.02);
}, [](pbt::Agg& a) { accuracyBounds(a, "truth", 2e-4, 2e-3, 0.15); });
TEST("ge", 300000, 4000000, [](Ctx& c) {
  Src& s = c.s; int n = s.range(12, s.chance(0.03) ? 400 : 50); bool w = s.chance(0.4); RelScene a = make(c, s.range(3, 6), n, 0.3, s.chance(0.5) ? 0.5 : 1.5); a.t *= 0.5; bool all = s.chance(0.5); double unit = 0; for (auto& X : a.X) unit += X.norm() / n; for (auto& X : a.X) if (X.norm() < 0.25 * unit) c.discard(); a.measure(); std::vector<int> idx = shuffled(s, n, all ? n : s.range(12, n)); if (all) std::sort(idx.begin(), idx.end());
  auto ok = [&](const RelScene& b) { return rigPosed(b, idx, 3e-2); }; if (!ok(a)) c.discard(); c.nontrivial(); note(c, a, idx); GeRes r = geRun(a, idx, all, w);
  c.require(isRot(r.R, 1e-9), "proper rotation", str(r.R)); c.require((r.R - r.o.rotation).norm() == 0, "output", "returned rotation differs from output.rotation");
  auto& ev = r.o.eigenvalues; c.require(ev[0] >= ev[1] && ev[1] >= ev[2] && ev[2] >= ev[3], "order", str(ev)); c.metric("smallest eigenvalue", std::fabs(ev[3]) / ev[0]);
  Eigen::Vector4d v = r.o.eigenvectors.col(3); double hom = (v / v[3] - r.o.translation).norm(); c.require(hom < 1e-9 * r.o.translation.norm(), "translation is the weakest eigenvector", hom);
  c.metric("truth", r.err); c.soft("truth", r.err < 0.02);
}, [](pbt::Agg& a) { accuracyBounds(a, "truth", 1e-4, 6e-4, 0.1); a.atMost("smallest eigenvalue", 0.5, 3e-9); a.atMost("smallest eigenvalue", 0.9, 5e-8); });
