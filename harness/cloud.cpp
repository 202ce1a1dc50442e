#include "geo.hpp"
#include <opengv/point_cloud/methods.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/point_cloud/MAPointCloud.hpp>
#include <opengv/math/arun.hpp>
#include <memory>
using namespace opengv; namespace pc = opengv::point_cloud;
const char* pbt::RULE = "point clouds of 3-40 points (generic, planar, nearly collinear, integer grid, far from the origin), exact, noisy, grossly mismatched and mirrored, index subsets in any order, identity-like and half-turn rotations. Non-trivial: the used points are not collinear";

typedef Eigen::Matrix4d M4; typedef Eigen::Vector4d V4;
// max over rotations of trace(R H) (Davenport's K matrix), independent of any SVD
static double maxTrace(const M3& H, double* gap = nullptr, M3* best = nullptr) {
  M3 B = H.transpose(); V3 z(B(1, 2) - B(2, 1), B(2, 0) - B(0, 2), B(0, 1) - B(1, 0)); M4 K, V; double tr = B.trace(); K(0, 0) = tr; K.block<1, 3>(0, 1) = -z.transpose(); K.block<3, 1>(1, 0) = -z; K.block<3, 3>(1, 1) = B + B.transpose() - tr * M3::Identity();
  V4 ev; jacobiEig<4>(K, ev, V); if (gap) *gap = ev[3] - ev[2]; if (best) { V4 q = V.col(3); *best = quatToRot(q[0], q[1], q[2], q[3]); } return ev[3];
}
static M3 genH(Ctx& c) {
  Src& s = c.s; M3 H; int k = s.range(0, 4); c.label(k == 0 ? "random" : k == 1 ? "integers" : k == 2 ? "rank 2" : k == 3 ? "rank 1" : "mirrored"); for (int i = 0; i < 9; i++) H(i / 3, i % 3) = k == 1 ? s.range(-2, 2) : s.real(-1, 1);
  if (k == 2) { V3 n = unitVec(s); H = H * (M3::Identity() - n * n.transpose()); } if (k == 3) H = vecIn(s, 1) * vecIn(s, 1).transpose(); if (k == 4 && det3(H) > 0) H = -H; H *= s.chance(0.3) ? s.logreal(1e-4, 1e4) : 1; return H;
}
TEST("arun", 400000, 3000000, [](Ctx& c) {
  M3 H = genH(c); c.note("H=" + str(H)); double gap; M3 best; double m = maxTrace(H, &gap, &best), n = H.norm(); if (n < 1e-8) c.discard(); c.nontrivial(gap > 1e-3 * n); Eigen::MatrixXd Hx = H; M3 R = math::arun(Hx);
  c.require(isRot(R, 1e-11), "not a rotation", str(R), " det ", det3(R)); double tr = (R * H).trace(); c.require(tr >= m - 1e-10 * n, "not optimal", "trace ", tr, " maximum ", m);
  if (gap > 1e-2 * n) c.require(rotErr(R, best) < 1e-9, "not the optimal rotation", str(R), " expected ", str(best));
});

struct Cl { points_t p1, p2; M3 R; V3 t; double scale; };
static Cl gen(Ctx& c, int mode) { // 0 exact 1 noise 2 mismatch 3 mirrored
  Src& s = c.s; Cl a; int n = s.range(3, s.chance(0.03) ? 400 : s.chance(0.3) ? 40 : 8), sh = s.range(0, 4); c.label(sh == 0 ? "generic" : sh == 1 ? "planar" : sh == 2 ? "nearly collinear" : sh == 3 ? "grid" : "far away"); a.scale = s.chance(0.3) ? s.logreal(1e-3, 1e3) : 1; a.R = anyRot(s); a.t = vecIn(s, 5) * a.scale; V3 off = sh == 4 ? V3(unitVec(s) * 100) : V3(vecIn(s, 2)), nr = unitVec(s);
  for (int i = 0; i < n; i++) { V3 q = vecIn(s, 3); if (sh == 1) q -= nr * nr.dot(q); if (sh == 2) q = nr * nr.dot(q) + 0.05 * q; if (sh == 3) q = V3(s.range(-3, 3), s.range(-3, 3), s.range(-3, 3)); else q += off; q *= a.scale; a.p2.push_back(q); }
  double sig = s.logreal(1e-4, 1); for (auto q : a.p2) { V3 b = mode == 3 ? V3(q[0], q[1], -q[2]) : q; V3 x = a.R * b + a.t; if (mode == 1) x += a.scale * sig * V3(s.gauss(), s.gauss(), s.gauss()); if (mode == 2) x = vecIn(s, 4) * a.scale; a.p1.push_back(x); } return a;
}
static double cost(const Cl& a, const std::vector<int>& idx, const M34& T) { double f = 0; for (int i : idx) f += (a.p1[i] - (T.leftCols<3>() * a.p2[i] + T.col(3))).squaredNorm(); return f; }
static M3 crossCov(const Cl& a, const std::vector<int>& idx, V3& m1, V3& m2, double& sq) { m1 = m2 = V3::Zero(); for (int i : idx) { m1 += a.p1[i]; m2 += a.p2[i]; } m1 /= idx.size(); m2 /= idx.size(); M3 H = M3::Zero(); sq = 0; for (int i : idx) { V3 x = a.p1[i] - m1, y = a.p2[i] - m2; H += y * x.transpose(); sq += x.squaredNorm() + y.squaredNorm(); } return H; }
static M34 pose34(const M3& R, const V3& t) { M34 T; T.leftCols<3>() = R; T.col(3) = t; return T; }
static M34 callIt(Src& s, const Cl& a, const std::vector<int>& idx, bool all, int how) { // the ways to hand over the data
  if (how == 0) { pc::PointCloudAdapter ad(a.p1, a.p2); return all ? pc::threept_arun(ad) : pc::threept_arun(ad, idx); }
  if (how == 1) { V3 pt = vecIn(s, 1); M3 pr = rotUpTo(s, 3); pc::PointCloudAdapter ad(a.p1, a.p2, pt, pr); return all ? pc::threept_arun(ad) : pc::threept_arun(ad, idx); } // a prior is ignored
  if (how == 2) { std::vector<double> x, y; for (auto& p : a.p1) for (int k = 0; k < 3; k++) x.push_back(p[k]); for (auto& p : a.p2) for (int k = 0; k < 3; k++) y.push_back(p[k]); pc::MAPointCloud ad(x.data(), y.data(), (int)a.p1.size(), (int)a.p2.size()); return all ? pc::threept_arun(ad) : pc::threept_arun(ad, idx); }
  points_t x, y; for (int i : idx) { x.push_back(a.p1[i]); y.push_back(a.p2[i]); } return math::arun_complete(x, y);
}
static void reg(Ctx& c, int mode) {
  Src& s = c.s; Cl a = gen(c, mode); int n = a.p1.size(); bool all = s.chance(0.4); std::vector<int> idx(n); std::iota(idx.begin(), idx.end(), 0); if (!all) { int k = s.range(3, n); for (int i = 0; i < k; i++) std::swap(idx[i], idx[i + s.below(n - i)]); idx.resize(k); }
  V3 m1, m2; double sq, gap; M3 H = crossCov(a, idx, m1, m2, sq), best; double tr = maxTrace(H, &gap, &best), opt = sq - 2 * tr; double mag = 0; for (int i : idx) mag += a.p1[i].squaredNorm() + a.p2[i].squaredNorm(); c.note("n=" + std::to_string(idx.size()) + " R=" + str(a.R) + " t=" + str(a.t) + " H=" + str(H));
  int how = s.range(0, 3); c.label(how == 3 ? "arun_complete" : how == 2 ? "MAPointCloud" : "PointCloudAdapter"); M34 T = callIt(s, a, idx, all, how); M3 R = T.leftCols<3>(); V3 t = T.col(3); c.require(isRot(R, 1e-10), "not a proper rotation", str(R), " det ", det3(R));
  double f = cost(a, idx, T); c.require(f <= opt + 1e-9 * mag, "not optimal", "cost ", f, " optimum ", opt, " T=", str(T)); c.nontrivial(gap > 1e-4 * sq); c.require((t - (m1 - R * m2)).norm() <= 1e-10 * std::sqrt(mag), "translation", "");
  // the optimum is well separated: pin the transformation itself
  if (gap > 1e-3 * sq) { c.require(rotErr(R, best) < 1e-9 * mag / gap + 1e-12, "not the optimal rotation", str(R), " expected ", str(best)); if (mode == 0) { c.require(rotErr(R, a.R) < 1e-9 * mag / gap + 1e-12, "not the true rotation", str(R), " true ", str(a.R)); c.require((T.col(3) - a.t).norm() < (1e-9 * mag / gap + 1e-12) * (m2.norm() + a.scale), "not the true translation", str(T), " true ", str(a.t)); } 
    // covariance with changes of either frame, order of the points
    M3 Q1 = anyRot(s), Q2 = anyRot(s); V3 u1 = vecIn(s, 2) * a.scale, u2 = vecIn(s, 2) * a.scale; Cl b = a; for (auto& q : b.p1) q = Q1 * q + u1; for (auto& q : b.p2) q = Q2 * q + u2; std::vector<int> id2 = idx; std::swap(id2[0], id2[s.below(id2.size())]); std::reverse(id2.begin(), id2.end()); M34 T2 = callIt(s, b, id2, false, how);
    M3 Rx = Q1 * R * Q2.transpose(); V3 tx = Q1 * t + u1 - Rx * u2; double tol = 1e-8 * (mag + sq) / gap; c.require(rotErr(T2.leftCols<3>(), Rx) < tol, "rotation not covariant", str(T2), " expected ", str(Rx)); c.require((T2.col(3) - tx).norm() < tol * (m2.norm() + 10 * a.scale), "translation not covariant", str(T2), " expected ", str(tx)); }
}
TEST("registration exact", 200000, 2000000, [](Ctx& c) { reg(c, 0); });
TEST("registration noise", 200000, 2000000, [](Ctx& c) { reg(c, 1); });
TEST("registration mismatch", 200000, 2000000, [](Ctx& c) { reg(c, 2); });
TEST("registration mirrored", 200000, 2000000, [](Ctx& c) { reg(c, 3); });
