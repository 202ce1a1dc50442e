#include "scene.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
using namespace opengv; namespace ap = opengv::absolute_pose; namespace rp = opengv::relative_pose; namespace pc = opengv::point_cloud;
const char* pbt::RULE = "scenes, rigs and point clouds with known truth, start values perturbed by up to 0.1 rad / 10 % of the depth (monotonicity: up to 0.5 rad, 50 %), exact and noisy data, ordered index subsets, priors given by constructor or setters. Non-trivial: the data determine the pose (sigma_min bound)";

// sometimes a rotation that is (almost) a half turn: no three-parameter representation may run into its singularity there
template <class F> void turn(Ctx& c, M3& R, F move) {
  Src& s = c.s; if (!s.chance(0.1)) return; c.label("half turn"); V3 ax = V3::Zero(); ax[s.range(0, 2)] = 1; M3 H = axisAngle(s.chance(0.4) ? ax : unitVec(s), M_PI - (s.chance(0.2) ? 0 : s.logreal(1e-9, 0.3))); move(H); R = H;
}
// cost at neighbours must not be lower: result is a local minimum
template <class F> void localMin(Ctx& c, const M34& T, double sc, double delta, F cost, const std::string& key) {
  double f = cost(T), worst = 0; for (int k = 0; k < 12; k++) { M34 Q = T; double a = (k & 1 ? 1 : -1) * delta; V3 ax = V3::Zero(); ax[(k / 2) % 3] = 1; if (k < 6) Q.leftCols<3>() = axisAngle(ax, a) * M3(T.leftCols<3>()); else Q.col(3) += a * sc * ax; worst = std::max(worst, f / cost(Q) - 1); }
  c.metric(key, worst); c.soft(key, worst < 1e-2);
}
static M34 startPose(Ctx& c, const M3& R, const V3& t, double sc, double ra, double ta) { Src& s = c.s; if (s.chance(0.03)) ra = 0; return pose(R * axisAngle(unitVec(s), s.from(0, ra)), t + unitVec(s) * s.from(0, ta) * sc); }
template <class F> void judge(Ctx& c, int mode, const M34& T, const M34& S, const M3& R, const V3& t, double sc, double sig, F cost, bool dirOnly) {
  M3 Q = T.leftCols<3>(); c.require(isRot(Q, 1e-9), "proper rotation", str(Q)); double f0 = cost(S), f1 = cost(T); c.require(finite(T), "finite", str(T));
  c.require(f1 <= f0 * (1 + 1e-6) + 1e-25, "worse than the start", "cost ", f1, " start ", f0, " result ", str(T)); c.note("cost start " + std::to_string(std::log10(f0 + 1e-300)) + " result " + std::to_string(std::log10(f1 + 1e-300)));
  V3 tt = T.col(3); double et = dirOnly ? angleOf(tt, t) : (tt - t).norm() / sc, e = std::max(rotErr(Q, R), et); if (std::isnan(e)) e = INFINITY;
  if (mode == 0) { c.metric("error", e); c.soft("error", e < 1e-3); }
  if (mode == 1) { double f = cost(pose(R, t)); c.metric("cost/cost at truth", f1 / f); c.soft("not above truth", f1 <= f * (1 + 1e-6)); localMin(c, T, sc, 0.1 * sig, cost, "neighbour lower"); c.metric("error/noise", e / sig); }
}
// --- absolute ------------------------------------------------------------------------
static void absolute(Ctx& c, int mode, bool cams) {
  Src& s = c.s; AbsOpt o; o.n = s.range(6, s.chance(0.03) ? 300 : 30); o.cams = cams ? s.range(2, 5) : 0; if (s.chance(0.2)) o.scale = s.logreal(1e-3, 1e3); AbsScene a = absScene(c, o); turn(c, a.R, [&](const M3& R) { for (auto& q : a.p) q = R * (a.R.transpose() * (q - a.t)) + a.t; }); a.measure();
  bool all = s.chance(0.4); auto idx = shuffled(s, o.n, all ? o.n : s.range(6, o.n)); if (all) std::sort(idx.begin(), idx.end()); if (absCond(a, idx) < 0.1) c.discard();
  double sc = 0; for (int i : idx) sc += (a.p[i] - a.t).norm(); sc /= idx.size(); for (int i : idx) if (a.dir(i, a.R, a.t).norm() < 0.2 * sc) c.discard();
  double sig = s.logreal(1e-4, 1e-2); if (mode) a.noise(s, sig); M34 S = mode == 2 ? startPose(c, a.R, a.t, sc, 0.5, 0.5) : startPose(c, a.R, a.t, sc, 0.1, 0.1); c.nontrivial(); c.note("R=" + str(a.R) + " t=" + str(a.t) + " start=" + str(S) + " used " + std::to_string(idx.size()));
  auto cost = [&](const M34& T) { double f = 0; for (int i : idx) { double e = bearErr(a.f[i], a.dir(i, T.leftCols<3>(), T.col(3))); f += e * e; } return f; };
  bool setters = s.chance(0.5); std::unique_ptr<ap::AbsoluteAdapterBase> ad; M3 SR = S.leftCols<3>(); V3 St = S.col(3);
  if (!cams) ad.reset(setters ? new ap::CentralAbsoluteAdapter(a.f, a.p) : new ap::CentralAbsoluteAdapter(a.f, a.p, St, SR)); else ad.reset(setters ? new ap::NoncentralAbsoluteAdapter(a.f, a.cam, a.p, a.rig.off, a.rig.rot) : new ap::NoncentralAbsoluteAdapter(a.f, a.cam, a.p, a.rig.off, a.rig.rot, St, SR));
  if (setters) { ad->sett(St); ad->setR(SR); } M34 T = all ? ap::optimize_nonlinear(*ad) : ap::optimize_nonlinear(*ad, idx); judge(c, mode, T, S, a.R, a.t, sc, sig, cost, false);
  c.require(ad->gett() == St && ad->getR() == SR, "prior", "the prior changed");
}
// --- relative ------------------------------------------------------------------------
static double relCost(const RelScene& a, int i, const M34& T) { // both reprojection errors of the mid-point
  M3 R = T.leftCols<3>(); V3 t = T.col(3), o1 = V3::Zero(), o2 = V3::Zero(); M3 R1 = M3::Identity(), R2 = R1; if (!a.central) { o1 = a.rig.off[a.c1[i]]; R1 = a.rig.rot[a.c1[i]]; o2 = a.rig.off[a.c2[i]]; R2 = a.rig.rot[a.c2[i]]; }
  V3 c1 = o1, c2 = t + R * o2, d1 = R1 * a.f1[i], d2 = R * (R2 * a.f2[i]); double b = d1.dot(d2); V3 w = c2 - c1; double den = d1.cross(d2).squaredNorm(); if (den < 1e-12) return 0; /* parallel: at infinity, which side is a matter of rounding */ double l = (w.dot(d1) - b * w.dot(d2)) / den, m = (b * w.dot(d1) - w.dot(d2)) / den; V3 X = 0.5 * (c1 + l * d1 + c2 + m * d2);
  return bearErr(a.f1[i], R1.transpose() * (X - c1)) + bearErr(a.f2[i], R2.transpose() * (R.transpose() * (X - c2)));
}
static double relCond(const RelScene& a, const std::vector<int>& idx, double sc) {
  int nt = a.central ? 2 : 3; V3 t = a.t, u = t.cross(std::fabs(t.normalized()[0]) < 0.8 ? V3(1, 0, 0) : V3(0, 1, 0)).normalized(), v = t.normalized().cross(u); Eigen::MatrixXd J(idx.size(), 6); J.setZero();
  for (size_t k = 0; k < idx.size(); k++) for (int q = 0; q < 3 + nt; q++) { int i = idx[k]; double h = 1e-5; double g[2]; for (int z = 0; z < 2; z++) { double e = z ? -h : h; M3 R = a.R; V3 tt = a.t; V3 ax = V3::Zero(); if (q < 3) { ax[q] = 1; R = axisAngle(ax, e) * R; } else tt += e * sc * (a.central ? (q == 3 ? u : v) : V3(q == 3, q == 4, q == 5)); g[z] = std::sqrt(std::max(0.0, relCost(a, i, pose(R, tt)))); } J(k, q) = 0.5 * (g[0] + g[1]) / h; }
  Eigen::Matrix<double, 6, 6> A = J.transpose() * J, V; if (nt == 2) A(5, 5) = 1e9; Eigen::Matrix<double, 6, 1> ev; jacobiEig<6>(A, ev, V); return std::sqrt(std::max(0.0, ev[0]));
}
static void relative(Ctx& c, int mode, bool cams) {
  Src& s = c.s; RelOpt o; o.n = s.range(10, s.chance(0.03) ? 300 : 30); o.cams = cams ? s.range(3, 6) : 0; o.spread = 1; o.minT = 0.5; o.cross = s.chance(0.4); if (s.chance(0.2)) o.scale = s.logreal(1e-3, 1e3); if (s.chance(0.3)) o.maxRot = M_PI; RelScene a = relScene(c, o); turn(c, a.R, [](const M3&) {}); a.measure();
  bool all = s.chance(0.4); auto idx = shuffled(s, o.n, all ? o.n : s.range(10, o.n)); if (all) std::sort(idx.begin(), idx.end()); double sc = 0; for (int i : idx) sc += a.X[i].norm(); sc /= idx.size();
  for (int i : idx) { V3 e1 = a.d1(i), e2 = a.d2(i); V3 w1 = a.central ? V3(e1) : V3(a.rig.rot[a.c1[i]] * e1), w2 = a.R * (a.central ? V3(e2) : V3(a.rig.rot[a.c2[i]] * e2)); double par = angleOf(w1, w2); if (e1.norm() < 0.2 * sc || e2.norm() < 0.2 * sc || par < 0.03 || par > M_PI - 0.03) c.discard(); }
  if (relCond(a, idx, sc) < (cams ? 0.02 : 0.05)) c.discard();
  double sig = s.logreal(1e-4, 3e-3); if (mode) a.noise(s, sig); double k = mode == 2 ? 0.3 : 0.02; M34 S = startPose(c, a.R, a.t, cams ? sc : a.t.norm(), k, k); c.nontrivial(); c.note("R=" + str(a.R) + " t=" + str(a.t) + " start=" + str(S) + " used " + std::to_string(idx.size()));
  auto cost = [&](const M34& T) { double f = 0; for (int i : idx) { double e = relCost(a, i, T); f += e * e; } return f; };
  bool setters = s.chance(0.5); std::unique_ptr<rp::RelativeAdapterBase> ad; M3 SR = S.leftCols<3>(); V3 St = S.col(3);
  if (!cams) ad.reset(setters ? new rp::CentralRelativeAdapter(a.f1, a.f2) : new rp::CentralRelativeAdapter(a.f1, a.f2, St, SR)); else ad.reset(setters ? new rp::NoncentralRelativeAdapter(a.f1, a.f2, a.c1, a.c2, a.rig.off, a.rig.rot) : new rp::NoncentralRelativeAdapter(a.f1, a.f2, a.c1, a.c2, a.rig.off, a.rig.rot, St, SR));
  if (setters) { ad->sett12(St); ad->setR12(SR); } M34 T = all ? rp::optimize_nonlinear(*ad) : rp::optimize_nonlinear(*ad, idx); judge(c, mode, T, S, a.R, a.t, sc, sig, cost, !cams);
}
// --- point clouds ----------------------------------------------------------------------
static void cloud(Ctx& c, int mode) {
  Src& s = c.s; int n = s.range(6, s.chance(0.03) ? 300 : 30); double scale = s.chance(0.3) ? s.logreal(0.1, 10) : 1; M3 R = anyRot(s); turn(c, R, [](const M3&) {}); V3 t = vecIn(s, 4) * scale; points_t p1, p2; bool planar = s.chance(0.2); V3 nrm = unitVec(s); for (int i = 0; i < n; i++) { V3 q = vecIn(s, 3) * scale; if (planar) q -= nrm * nrm.dot(q); p2.push_back(q); p1.push_back(R * q + t); }
  bool all = s.chance(0.4); auto idx = shuffled(s, n, all ? n : s.range(6, n)); if (all) std::sort(idx.begin(), idx.end()); V3 m = V3::Zero(); for (int i : idx) m += p2[i]; m /= idx.size(); M3 A = M3::Zero(), V; for (int i : idx) A += (p2[i] - m) * (p2[i] - m).transpose(); V3 ev; jacobiEig<3>(A, ev, V); if (std::sqrt(ev[1] / idx.size()) < 0.3 * scale) c.discard();
  double sc = 0; for (int i : idx) sc += p2[i].norm(); sc /= idx.size(); double sig = s.logreal(1e-4, 1e-2); if (mode) for (auto& q : p1) q += rv(s, sig * sc); M34 S = mode == 2 ? startPose(c, R, t, sc, 0.5, 0.5) : startPose(c, R, t, sc, 0.1, 0.1); c.nontrivial(); c.note("R=" + str(R) + " t=" + str(t) + " used " + std::to_string(idx.size()));
  auto cost = [&](const M34& T) { double f = 0; for (int i : idx) f += (p1[i] - (T.leftCols<3>() * p2[i] + T.col(3))).squaredNorm(); return f / (sc * sc); };
  bool setters = s.chance(0.5); M3 SR = S.leftCols<3>(); V3 St = S.col(3); std::unique_ptr<pc::PointCloudAdapter> ad(setters ? new pc::PointCloudAdapter(p1, p2) : new pc::PointCloudAdapter(p1, p2, St, SR)); if (setters) { ad->sett12(St); ad->setR12(SR); }
  M34 T = all ? pc::optimize_nonlinear(*ad) : pc::optimize_nonlinear(*ad, idx); judge(c, mode, T, S, R, t, sc, sig, cost, false);
}
// exact: quantiles of the error; noise: median of error / noise level, rates of the two optimality conditions
static void exactBounds(pbt::Agg& a, double q50, double q90, double rate) { accuracyBounds(a, "error", q50, q90, rate); }
static void noiseBounds(pbt::Agg& a, double q50, double q90, double rate) {
  a.seen("neighbour lower", 200); a.softAtMost("not above truth", rate / 4); a.softAtMost("neighbour lower", rate); a.atMost("neighbour lower", 0.9, 1e-3); a.atMost("error/noise", 0.5, q50); a.atMost("error/noise", 0.9, q90);
}
TEST("absolute exact", 20000, 600000, [](Ctx& c) { absolute(c, 0, false); }, [](pbt::Agg& a) { exactBounds(a, 2e-06, 0.0007, 0.002); });
TEST("absolute noise", 20000, 600000, [](Ctx& c) { absolute(c, 1, false); }, [](pbt::Agg& a) { noiseBounds(a, 4, 20, 0.1); });
TEST("absolute far start", 10000, 600000, [](Ctx& c) { absolute(c, 2, false); });
TEST("absolute rig exact", 20000, 600000, [](Ctx& c) { absolute(c, 0, true); }, [](pbt::Agg& a) { exactBounds(a, 2e-06, 0.0007, 0.002); });
TEST("absolute rig noise", 20000, 600000, [](Ctx& c) { absolute(c, 1, true); }, [](pbt::Agg& a) { noiseBounds(a, 4, 20, 0.1); });
TEST("absolute rig far start", 10000, 600000, [](Ctx& c) { absolute(c, 2, true); });
TEST("relative exact", 20000, 600000, [](Ctx& c) { relative(c, 0, false); }, [](pbt::Agg& a) { exactBounds(a, 6e-05, 0.003, 0.1); });
TEST("relative noise", 20000, 600000, [](Ctx& c) { relative(c, 1, false); }, [](pbt::Agg& a) { noiseBounds(a, 25, 100, 0.1); });
TEST("relative far start", 10000, 600000, [](Ctx& c) { relative(c, 2, false); });
TEST("relative rig exact", 20000, 600000, [](Ctx& c) { relative(c, 0, true); }, [](pbt::Agg& a) { exactBounds(a, 6e-05, 0.003, 0.1); });
TEST("relative rig noise", 20000, 600000, [](Ctx& c) { relative(c, 1, true); }, [](pbt::Agg& a) { noiseBounds(a, 15, 60, 0.1); });
TEST("relative rig far start", 10000, 600000, [](Ctx& c) { relative(c, 2, true); });
TEST("cloud exact", 20000, 600000, [](Ctx& c) { cloud(c, 0); }, [](pbt::Agg& a) { exactBounds(a, 2e-06, 5e-05, 0.001); });
TEST("cloud noise", 20000, 600000, [](Ctx& c) { cloud(c, 1); }, [](pbt::Agg& a) { noiseBounds(a, 2, 4, 0.01); });
TEST("cloud far start", 10000, 600000, [](Ctx& c) { cloud(c, 2); });
