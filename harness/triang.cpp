#include "scene.hpp"
#include <opengv/triangulation/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/MACentralRelative.hpp>
using namespace opengv; namespace rp = opengv::relative_pose; namespace tr = opengv::triangulation;
const char* pbt::RULE = "two-view scenes with omnidirectional, forward, compact and exactly planar (z = 0, x = 0 or y = 0) points, structured rotations, prior by constructor or setters; arbitrary bearing pairs for the mid-point method. Non-trivial: parallax above 0.02 rad";

struct Holder { std::unique_ptr<rp::RelativeAdapterBase> ad; std::vector<double> a, b, w; };
static void adapt(Src& s, Holder& h, const bearingVectors_t& f1, const bearingVectors_t& f2, const M3& R, const V3& t, int how) {
  h.w.assign(f1.size(), 1.0); for (auto& x : h.w) x = s.from(0.1, 2);
  if (how == 0) h.ad.reset(new rp::CentralRelativeAdapter(f1, f2, t, R)); else if (how == 1) { h.ad.reset(new rp::CentralRelativeAdapter(f1, f2)); h.ad->sett12(t); h.ad->setR12(R); } else if (how == 2) h.ad.reset(new rp::CentralRelativeWeightingAdapter(f1, f2, h.w, t, R));
  else { for (auto& p : f1) for (int k = 0; k < 3; k++) h.a.push_back(p[k]); for (auto& p : f2) for (int k = 0; k < 3; k++) h.b.push_back(p[k]); h.ad.reset(new rp::MACentralRelative(h.a.data(), h.b.data(), (int)f1.size(), (int)f2.size())); h.ad->sett12(t); h.ad->setR12(R); }
}
static V3 midRef(const V3& f1, const V3& f2, const M3& R, const V3& t) { // closest points of the two lines through their common perpendicular
  V3 d1 = f1, d2 = R * f2, n = d1.cross(d2); double nn = n.squaredNorm(); double l = t.cross(d2).dot(n) / nn, m = t.cross(d1).dot(n) / nn; return 0.5 * (l * d1 + t + m * d2);
}
static void exact(Ctx& c, bool plane) {
  Src& s = c.s; RelOpt o; o.n = s.range(1, 6); o.maxRot = M_PI; o.minT = 0.2; o.maxT = 3; if (s.chance(0.3)) o.scale = s.logreal(1e-4, 1e4); RelScene a = relScene(c, o);
  if (plane) { int ax = s.range(0, 2); V3 e = V3::Zero(); e[ax] = 1; a.R = axisAngle(e, s.chance(0.2) ? 0.0 : s.real(-3, 3)); for (int k = 0; k < 3; k++) { a.R(ax, k) = k == ax; a.R(k, ax) = k == ax; } a.t[ax] = 0; if (s.chance(0.5)) for (auto& x : a.X) x[ax] = 0; else for (auto& x : a.X) x[ax] *= std::pow(10., -s.from(0, 12)); a.measure(); if (a.t.norm() < 0.1 * o.scale) c.discard(); c.label(std::string("plane ") + "xyz"[ax]); }
  Holder h; int how = s.range(0, 3); adapt(s, h, a.f1, a.f2, a.R, a.t, how); int i = s.range(0, o.n - 1); V3 X = a.X[i]; double par = angleOf(X, X - a.t); double d = std::max(X.norm(), (X - a.t).norm()); if (std::min(par, M_PI - par) < 0.02 || X.norm() < 0.05 * d || (X - a.t).norm() < 0.05 * d) c.discard(); c.nontrivial(); c.note("R=" + str(a.R) + " t=" + str(a.t) + " X=" + str(X) + " f1=" + str(a.f1[i]) + " f2=" + str(a.f2[i]));
  V3 p = tr::triangulate(*h.ad, i), q = tr::triangulate2(*h.ad, i); double sp = std::sin(par); c.metric("mid-point", (q - X).norm() / d); c.metric("linear", (p - X).norm() / d);
  c.require((q - X).norm() < 1e-11 * d / (sp * sp), "mid-point", "returned ", str(q)); c.require((p - X).norm() < 1e-9 * d / (sp * sp) * std::max(1.0, d / a.t.norm()), "linear", "returned ", str(p));
  // other correspondences and the order do not matter
  bearingVectors_t g1(1, a.f1[i]), g2(1, a.f2[i]); if (s.chance(0.5)) { g1.insert(g1.begin(), unitVec(s)); g2.insert(g2.begin(), unitVec(s)); } size_t j = g1.size() - 1; Holder k; adapt(s, k, g1, g2, a.R, a.t, s.range(0, 3)); V3 p2 = tr::triangulate(*k.ad, j), q2 = tr::triangulate2(*k.ad, j); c.require((p2 - p).norm() <= 1e-13 * d && (q2 - q).norm() <= 1e-13 * d, "depends on other correspondences", str(p2), " ", str(p), " ", str(q2), " ", str(q));
  V3 t0 = h.ad->gett12(); c.require(t0 == a.t && h.ad->getR12() == a.R, "prior", "");
}
TEST("exact", 500000, 4000000, [](Ctx& c) { exact(c, false); }, [](pbt::Agg& a) { a.seen("linear", 1000); a.atMost("mid-point", 0.5, 3e-15); a.atMost("linear", 0.5, 1e-14); a.atMost("mid-point", 0.99, 1e-12); a.atMost("linear", 0.99, 1e-11); });
TEST("exact in a coordinate plane", 400000, 3000000, [](Ctx& c) { exact(c, true); }, [](pbt::Agg& a) { a.seen("linear", 1000); a.atMost("linear", 0.5, 1e-14); a.atMost("linear", 0.99, 1e-11); });
TEST("mid-point of any lines", 500000, 4000000, [](Ctx& c) {
  Src& s = c.s; bearingVectors_t f1, f2; int n = s.range(1, 4); for (int i = 0; i < n; i++) { f1.push_back(unitVec(s)); f2.push_back(unitVec(s)); } M3 R = anyRot(s); V3 t = vecIn(s, 3); if (s.chance(0.05)) t = V3::Zero(); Holder h; adapt(s, h, f1, f2, R, t, s.range(0, 3)); int i = s.range(0, n - 1); double par = angleOf(f1[i], R * f2[i]), sp = std::sin(par); if (sp < 0.02) c.discard(); c.nontrivial(); c.note("R=" + str(R) + " t=" + str(t) + " f1=" + str(f1[i]) + " f2=" + str(f2[i]));
  V3 q = tr::triangulate2(*h.ad, i), ref = midRef(f1[i], f2[i], R, t); c.require((q - ref).norm() < 1e-12 * (t.norm() + 1) / (sp * sp), "mid-point", "returned ", str(q), " reference ", str(ref));
});
TEST("linear with noise", 50000, 1000000, [](Ctx& c) { // first-order bound on the error
  Src& s = c.s; RelOpt o; o.n = 1; o.maxRot = M_PI; o.minT = 0.5; RelScene a = relScene(c, o); V3 X = a.X[0]; double par = angleOf(X, X - a.t), sp = std::sin(par), d = std::max(X.norm(), (X - a.t).norm()); if (sp < 0.1) c.discard(); double sig = s.logreal(1e-6, 1e-4); a.noise(s, sig); c.nontrivial(); c.note("R=" + str(a.R) + " t=" + str(a.t) + " X=" + str(X)); Holder h; adapt(s, h, a.f1, a.f2, a.R, a.t, s.range(0, 3)); V3 p = tr::triangulate(*h.ad, 0), q = tr::triangulate2(*h.ad, 0); double e = (p - X).norm() * sp / (d * sig), e2 = (q - X).norm() * sp / (d * sig); c.metric("linear error / noise", e); c.metric("mid-point error / noise", e2); c.soft("linear", e < 30); c.soft("mid-point", e2 < 30);
}, [](pbt::Agg& a) { a.seen("linear error / noise", 1000); for (auto k : {"linear error / noise", "mid-point error / noise"}) { a.atMost(k, 0.5, 3); a.atMost(k, 0.9, 7); } a.softAtMost("linear", 0.001); a.softAtMost("mid-point", 0.001); });
