#include "geo.hpp"
#include <opengv/math/quaternion.hpp>
#include <opengv/math/cayley.hpp>
using namespace opengv;
const char* pbt::RULE = "rotations drawn as unit quaternions / axis-angle pairs, one third of them structured (identity, quarter and half turns about axes, tiny and nearly-180-degree angles); a case is non-trivial when the rotation angle exceeds 1e-3 rad or the rotation is one of the structured ones";

static M3 refQuat(const Eigen::Vector4d& q) { // v -> q v q^-1, written with cross products
  V3 u(q[1], q[2], q[3]); double w = q[0]; M3 k = skew(u); return M3::Identity() * (w * w + u.dot(u)) + 2 * w * k + 2 * k * k;
}
static Eigen::Vector4d genQuat(Ctx& c) {
  Src& s = c.s; int k = s.range(0, 5); Eigen::Vector4d q;
  if (k <= 2) { q = Eigen::Vector4d(s.gauss(), s.gauss(), s.gauss(), s.gauss()); if (q.norm() < 1e-3) q = Eigen::Vector4d(1, 0, 0, 0); q.normalize(); c.label("generic"); }
  else if (k == 3) { q.setZero(); int a = s.range(0, 3); q[a] = s.chance(0.5) ? -1 : 1; if (s.chance(0.7)) { int b = s.range(0, 3); if (b != a) { q[b] = s.chance(.5) ? 1 : -1; q.normalize(); } } c.label("axis structured"); }
  else if (k == 4) { V3 a = unitVec(s); double h = 0.5 * std::pow(10.0, -s.from(0, 10)); q << std::cos(h), std::sin(h) * a[0], std::sin(h) * a[1], std::sin(h) * a[2]; c.label("tiny angle"); }
  else { V3 a = unitVec(s); if (s.chance(0.5)) { a = V3::Zero(); a[s.range(0, 2)] = 1; } double h = 0.5 * (M_PI - std::pow(10.0, -s.from(0, 10))); q << std::cos(h), std::sin(h) * a[0], std::sin(h) * a[1], std::sin(h) * a[2]; c.label("near half turn"); }
  c.nontrivial(std::fabs(q[0]) < 1 - 1e-7 || k == 3);
  return q;
}
TEST("quaternion2rot", 40000, 1000000, [](Ctx& c) {
  auto q = genQuat(c); M3 R = math::quaternion2rot(q);
  c.note("q=" + str(q));
  c.require(finite(R), "nonfinite", "q=", str(q)); M3 ref = refQuat(q);
  c.require((R - ref).norm() < 1e-13, "formula", "q=", str(q), " R=", str(R), " reference=", str(ref));
  c.require(orthoErr(R) < 1e-12, "not-rotation", str(R));
  V3 p = vecIn(c.s, 3); c.require(((math::quaternion2rot(q) * p) - ref * p).norm() < 1e-11, "action", "");
});
TEST("rot2quaternion", 40000, 1000000, [](Ctx& c) {
  auto q = genQuat(c); M3 R = refQuat(q); if (c.labels.back() == "axis structured") { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (std::fabs(R(i, j) - std::round(R(i, j))) < 1e-12) R(i, j) = std::round(R(i, j)); }
  c.note("R=" + str(R));
  auto h = math::rot2quaternion(R);
  c.require(finite(h), "nonfinite", "R=", str(R), " q=", str(h));
  c.require(std::fabs(h.norm() - 1) < 1e-12, "norm", str(h));
  double e = std::min((h - q).norm(), (h + q).norm()); c.metric("err", e);
  c.require(e < 2e-7, "roundtrip", "q=", str(q), " back=", str(h));
  // the dominant component tells the angle from its complement: well-conditioned components are accurate
  int m; q.cwiseAbs().maxCoeff(&m); double sg = h[m] * q[m] < 0 ? -1 : 1;
  for (int i = 0; i < 4; i++) if (std::fabs(q[i]) > 1e-2) c.require(std::fabs(sg * h[i] - q[i]) < 1e-12, "component", i, " q=", str(q), " back=", str(h));
  c.require((math::quaternion2rot(h) - R).norm() < 1e-6, "inverse", str(R));
}, [](pbt::Agg& a) { a.seen("err", 1000); a.atMost("err", 0.5, 1e-14); });
TEST("cayley2rot", 40000, 1000000, [](Ctx& c) {
  Src& s = c.s; V3 k; int m = s.range(0, 3);
  if (m == 0) k = vecIn(s, 1); else if (m == 1) { k = V3::Zero(); k[s.range(0, 2)] = s.real(-5, 5); } else if (m == 2) k = unitVec(s) * std::pow(10.0, s.real(-8, 5)); else k = vecIn(s, 10);
  c.label(m == 1 ? "axis aligned" : m == 2 ? "log scaled" : "box"); c.nontrivial(k.norm() > 1e-3);
  c.note("cayley=" + str(k));
  M3 R = math::cayley2rot(k), Rr = math::cayley2rot_reduced(k);
  M3 ref = k.norm() > 0 ? axisAngle(k.normalized(), 2 * std::atan(k.norm())) : M3::Identity();
  double tol = 1e-13 ;
  c.require((R - ref).norm() < 10 * tol, "formula", "c=", str(k), " R=", str(R), " reference=", str(ref));
  c.require(orthoErr(R) < 1e-12, "not-rotation", str(R));
  c.require((Rr / (1 + k.squaredNorm()) - ref).norm() < 10 * tol, "reduced", "c=", str(k), " ", str(Rr));
  if (k.norm() < 1e3) {
    V3 b = math::rot2cayley(R); double e = (b - k).norm() / (1 + k.squaredNorm()); c.metric("cayley roundtrip rel", e);
    c.require(e < 1e-12 * (1 + k.norm()), "roundtrip", "c=", str(k), " back=", str(b));
    // the opposite rotation has the opposite parameters
    V3 bi = math::rot2cayley(R.transpose()); c.require((bi + k).norm() / (1 + k.squaredNorm()) < 1e-12 * (1 + k.norm()), "inverse-sign", str(k), str(bi));
  }
});
TEST("rot2cayley", 40000, 1000000, [](Ctx& c) {
  Src& s = c.s; std::string l = "generic"; M3 R; 
  if (s.chance(0.3)) R = rotSpecial(s, &l); else R = rotUpTo(s, 3.0);
  double ang = rotErr(R, M3::Identity()); if (ang > 3.05) c.discard(); // 180 degrees has no Cayley parameters
  c.label(l); c.nontrivial(ang > 1e-3 || l != "generic"); c.note("R=" + str(R));
  V3 k = math::rot2cayley(R); c.require(finite(k), "nonfinite", str(R));
  c.require(std::fabs(k.norm() - std::tan(ang / 2)) < 1e-9 * (1 + k.squaredNorm()), "angle", "angle ", ang, " |c| ", k.norm());
  c.require((math::cayley2rot(k) - R).norm() < 1e-11 * (1 + k.norm()), "roundtrip", str(R), " c=", str(k));
  if (ang > 1e-6) { c.require((R * k - k).norm() < 1e-9 * (1 + k.squaredNorm()), "axis", str(k)); }
});
