// Synthetic scenes with known truth. Bearings are computed here from the documented
// conventions: absolute pose = position in the world + rotation viewpoint->world;
// relative pose = position of viewpoint 2 in frame 1 + rotation frame 2 -> frame 1;
// camera extrinsics = position in the viewpoint frame + rotation camera->viewpoint.
#pragma once
#include "geo.hpp"
#include <memory>
using opengv::bearingVectors_t; using opengv::points_t; using opengv::translations_t; using opengv::rotations_t; using opengv::transformation_t;

struct Rig { translations_t off; rotations_t rot; };
inline Rig genRig(Src& s, int n, double spread) {
  Rig r; bool axis = s.chance(0.15);
  for (int i = 0; i < n; i++) { V3 o = vecIn(s, spread); if (axis) { o = V3::Zero(); o[i % 3] = (i % 2 ? -spread : spread); } r.off.push_back(o); r.rot.push_back(anyRot(s)); }
  return r;
}
inline M34 pose(const M3& R, const V3& t) { M34 T; T.leftCols<3>() = R; T.col(3) = t; return T; }
inline V3 rv(Src& s, double e) { return V3(s.gauss(), s.gauss(), s.gauss()) * e; }

struct AbsScene {
  M3 R; V3 t; Rig rig; points_t p; bearingVectors_t f; std::vector<int> cam; bool central = true;
  size_t n() const { return p.size(); }
  V3 dir(size_t i, const M3& Rr, const V3& tt) const { // unnormalised bearing of point i for a hypothetical pose
    V3 b = Rr.transpose() * (p[i] - tt); if (central) return b; return rig.rot[cam[i]].transpose() * (b - rig.off[cam[i]]);
  }
  void measure() { f.clear(); for (size_t i = 0; i < n(); i++) f.push_back(dir(i, R, t).normalized()); }
  void noise(Src& s, double ang) { for (auto& b : f) b = perturb(s, b, ang); }
  double reproj(size_t i, const M3& Rr, const V3& tt) const { return angleOf(f[i], dir(i, Rr, tt)); }
};
struct AbsOpt { int n = 3; int cams = 0; double spread = 0.5; int shape = -1; double scale = 1; double maxT = 5; bool structured = true; };
// cloud shapes: 0 all directions, 1 forward cone, 2 one compact cloud in front, 3 planar patch, 4 integer grid
inline AbsScene absScene(Ctx& c, const AbsOpt& o) {
  Src& s = c.s; AbsScene a; a.central = o.cams == 0;
  a.R = o.structured ? anyRot(s) : rotUpTo(s, M_PI); a.t = vecIn(s, o.maxT * o.scale); if (s.chance(0.08)) { a.t *= s.logreal(10, 1000); c.label("far from the origin"); }
  if (o.structured && s.chance(0.05)) a.t.setZero();
  if (o.cams) a.rig = genRig(s, o.cams, o.spread * o.scale);
  int sh = o.shape >= 0 ? o.shape : s.range(0, 2); c.label(sh == 0 ? "omnidirectional" : sh == 1 ? "forward cone" : sh == 2 ? "compact cloud" : sh == 3 ? "planar" : "grid");
  V3 ctr = unitVec(s) * s.from(3, 8); V3 nrm = unitVec(s);
  int rot0 = s.range(0, std::max(0, o.cams - 1));
  for (int i = 0; i < o.n; i++) {
    V3 b;
    if (sh == 0) b = unitVec(s) * s.from(2, 8);
    else if (sh == 1) { b = V3(s.real(-1, 1), s.real(-1, 1), 1) * s.from(2, 8); }
    else if (sh == 2) b = ctr + vecIn(s, 2);
    else if (sh == 3) { V3 q = vecIn(s, 2.5); b = ctr + q - nrm * nrm.dot(q); }
    else b = V3(s.range(-3, 3), s.range(-3, 3), s.range(-3, 3)) ;
    a.p.push_back(a.R * (b * o.scale) + a.t);
    if (o.cams) a.cam.push_back((i + rot0) % o.cams);
  }
  if (sh == 4) for (auto& q : a.p) for (int k = 0; k < 3; k++) q[k] = std::round(q[k]);
  a.measure();
  return a;
}
inline AbsScene jitter(const AbsScene& a, Src& s, double e) {
  AbsScene b = a; double sc = 0; for (auto& q : a.p) sc = std::max(sc, (q - a.t).norm());
  for (auto& q : b.p) q += rv(s, e * sc); b.t += rv(s, e * sc); b.R = a.R * axisAngle(unitVec(s), e); for (auto& o : b.rig.off) o += rv(s, e * sc * 0.3); for (auto& r : b.rig.rot) r = r * axisAngle(unitVec(s), e);
  b.measure(); return b;
}
// reciprocal condition of the exact pose: sigma_min of d(bearings)/d(pose) (rotation in rad, translation relative to depth)
inline double absCond(const AbsScene& a, const std::vector<int>& idx) {
  Eigen::MatrixXd J(3 * idx.size(), 6); double sc = 0; for (int i : idx) sc += (a.p[i] - a.t).norm(); sc /= idx.size();
  for (size_t k = 0; k < idx.size(); k++) {
    int i = idx[k]; V3 d = a.dir(i, a.R, a.t); double n = d.norm(); V3 u = d / n; M3 P = (M3::Identity() - u * u.transpose()) / n;
    M3 Rc = a.central ? M3(M3::Identity()) : M3(a.rig.rot[a.cam[i]].transpose());
    J.block<3, 3>(3 * k, 0) = P * Rc * skew(a.R.transpose() * (a.p[i] - a.t));
    J.block<3, 3>(3 * k, 3) = -P * Rc * a.R.transpose() * sc;
  }
  Eigen::Matrix<double, 6, 6> A = J.transpose() * J, V; Eigen::Matrix<double, 6, 1> ev; jacobiEig<6>(A, ev, V); return std::sqrt(std::max(0.0, ev[0]));
}

struct RelScene {
  M3 R; V3 t; Rig rig; points_t X; bearingVectors_t f1, f2; std::vector<int> c1, c2; bool central = true;
  size_t n() const { return X.size(); }
  V3 d1(size_t i) const { return central ? V3(X[i]) : V3(rig.rot[c1[i]].transpose() * (X[i] - rig.off[c1[i]])); }
  V3 d2(size_t i) const { V3 b = R.transpose() * (X[i] - t); return central ? b : V3(rig.rot[c2[i]].transpose() * (b - rig.off[c2[i]])); }
  void measure() { f1.clear(); f2.clear(); for (size_t i = 0; i < n(); i++) { f1.push_back(d1(i).normalized()); f2.push_back(d2(i).normalized()); } }
  void noise(Src& s, double ang) { for (auto& b : f1) b = perturb(s, b, ang); for (auto& b : f2) b = perturb(s, b, ang); }
  M3 E() const { return skew(t) * R; }
};
struct RelOpt { int n = 8; int cams = 0; double spread = 0.5; int shape = -1; double maxRot = 0.7; double maxT = 2, minT = 0.3; bool cross = false; double scale = 1; bool structured = true; };
inline RelScene relScene(Ctx& c, const RelOpt& o) {
  Src& s = c.s; RelScene a; a.central = o.cams == 0;
  a.R = (o.structured && s.chance(0.1)) ? rotSpecial(s) : rotUpTo(s, o.maxRot); if (rotErr(a.R, M3::Identity()) > o.maxRot + 1e-9) a.R = rotUpTo(s, o.maxRot);
  a.t = unitVec(s) * s.from(o.minT, o.maxT) * o.scale; if (o.structured && s.chance(0.08)) { a.t = V3::Zero(); a.t[s.range(0, 2)] = (s.chance(0.5) ? 1 : -1) * s.from(o.minT, o.maxT) * o.scale; }
  if (o.cams) a.rig = genRig(s, o.cams, o.spread * o.scale);
  int sh = o.shape >= 0 ? o.shape : s.range(0, 2); c.label(sh == 0 ? "omnidirectional" : sh == 1 ? "forward cone" : sh == 2 ? "compact cloud" : "planar");
  V3 ctr = unitVec(s) * s.from(3.5, 8), nrm = unitVec(s); int rot0 = s.range(0, std::max(0, o.cams - 1));
  for (int i = 0; i < o.n; i++) {
    V3 b; int k = 0;
    do {
      if (sh == 0) b = unitVec(s) * s.from(3, 8);
      else if (sh == 1) b = V3(s.real(-1, 1), s.real(-1, 1), 1) * s.from(3, 8);
      else if (sh == 2) b = ctr + vecIn(s, 2.5);
      else { V3 q = vecIn(s, 2.5); b = ctr + q - nrm * nrm.dot(q); }
      b *= o.scale;
    } while ((b.norm() < 0.5 * o.scale || (b - a.t).norm() < 0.5 * o.scale) && ++k < 20);
    a.X.push_back(b);
    if (o.cams) { a.c1.push_back((i + rot0) % o.cams); a.c2.push_back(o.cross ? s.range(0, o.cams - 1) : a.c1.back()); }
  }
  a.measure(); return a;
}
inline RelScene jitter(const RelScene& a, Src& s, double e) {
  RelScene b = a; double sc = 0; for (auto& q : a.X) sc = std::max(sc, q.norm());
  for (auto& q : b.X) q += rv(s, e * sc); b.t += rv(s, e * a.t.norm()); b.R = a.R * axisAngle(unitVec(s), e); for (auto& o : b.rig.off) o += rv(s, e * sc * 0.3); for (auto& r : b.rig.rot) r = r * axisAngle(unitVec(s), e);
  b.measure(); return b;
}
// all indices, or a random subset in random order
inline std::vector<int> shuffled(Src& s, int n, int k) {
  std::vector<int> v(n); std::iota(v.begin(), v.end(), 0);
  for (int i = 0; i < k; i++) std::swap(v[i], v[i + s.below(n - i)]);
  v.resize(k); return v;
}
inline double tErr(const V3& a, const V3& b, double scale) { return (a - b).norm() / scale; }
// A failing exact case can be a numerically unlucky one (the closed forms have thin
// singular sets). It counts only when the neighbourhood fails as well: the error of at
// least `need` of `k` jittered copies must exceed the tolerance, too. How often single
// cases fail is bounded over the whole batch (see accuracyBounds).
struct Pers { int k = 12, need = 10; double eps = 0.05; };
template <class S, class F> void accuracy(Ctx& c, const std::string& key, double err, double tol, const S& scene, F errOf, const std::string& what = "", Pers p = Pers()) {
  bool ok = err <= tol; c.metric(key, err); c.soft(key, ok); if (ok) return;
  int bad = 0, good = 0; 
  for (int i = 0; i < p.k && good <= p.k - p.need; i++) { double e = errOf(jitter(scene, c.s, p.eps)); if (e <= tol) good++; else bad++; }
  c.require(bad < p.need, key, "error ", err, " exceeds ", tol, ", also for ", bad, " of ", p.k, " neighbouring scenes. ", what);
}
// batch rule: median and 90% quantile of the error and the rate of cases above the per-case tolerance
inline void accuracyBounds(pbt::Agg& a, const std::string& key, double q50, double q90, double rate, size_t atLeast = 200) {
  a.seen(key, atLeast); a.atMost(key, 0.5, q50); a.atMost(key, 0.9, q90); a.softAtMost(key, rate);
}
// sigma_min of the epipolar constraints as a function of the motion (3 rotation, 2 direction-of-translation parameters)
inline double epiCond(const RelScene& a, const std::vector<int>& idx) {
  V3 t = a.t.normalized(), u = t.cross(std::fabs(t[0]) < 0.8 ? V3(1, 0, 0) : V3(0, 1, 0)).normalized(), v = t.cross(u); Eigen::MatrixXd J(idx.size(), 5);
  for (size_t k = 0; k < idx.size(); k++) { V3 f1 = a.f1[idx[k]], f2 = a.f2[idx[k]], r = a.R * f2;
    V3 dr = (f1.transpose() * skew(t) * a.R * -skew(f2)).transpose(), dt = r.cross(f1); J.row(k) << dr.transpose(), dt.dot(u), dt.dot(v); }
  Eigen::Matrix<double, 5, 5> A = J.transpose() * J, V; Eigen::Matrix<double, 5, 1> ev; jacobiEig<5>(A, ev, V); return std::sqrt(std::max(0.0, ev[0]));
}
// distance of two matrices up to scale and sign
template <class A, class B> double upToScale(const A& a, const B& b) { auto x = (a / a.norm()).eval(); auto y = (b / b.norm()).eval(); return std::min((x - y).norm(), (x + y).norm()); }
// --- generalized two-view conditioning ---------------------------------------------
// generalized epipolar constraint of one correspondence: l1^T [E R; R 0] l2 with E=[t]x R
inline double gec(const RelScene& a, int i, const M3& R, const V3& t) {
  V3 d1 = a.rig.rot[a.c1[i]] * a.f1[i], d2 = a.rig.rot[a.c2[i]] * a.f2[i], m1 = a.rig.off[a.c1[i]].cross(d1), m2 = a.rig.off[a.c2[i]].cross(d2);
  V3 rd = R * d2; return d1.dot(t.cross(rd)) + d1.dot(R * m2) + m1.dot(rd);
}
inline double genCond(const RelScene& a, const std::vector<int>& idx) { // 3 rotation + 3 translation (relative to depth)
  double sc = 0; for (int i : idx) sc += a.X[i].norm(); sc /= idx.size(); Eigen::MatrixXd J(idx.size(), 6);
  for (size_t k = 0; k < idx.size(); k++) { int i = idx[k]; for (int q = 0; q < 6; q++) { double h = 1e-6; V3 w = V3::Zero(), dt = V3::Zero(); if (q < 3) w[q] = 1; else dt[q - 3] = sc; J(k, q) = (q < 3 ? (gec(a, i, axisAngle(w, h) * a.R, a.t) - gec(a, i, axisAngle(w, -h) * a.R, a.t)) : (gec(a, i, a.R, a.t + h * dt) - gec(a, i, a.R, a.t - h * dt))) / (2 * h) / sc; } }
  Eigen::Matrix<double, 6, 6> A = J.transpose() * J, V; Eigen::Matrix<double, 6, 1> ev; jacobiEig<6>(A, ev, V); return std::sqrt(std::max(0.0, ev[0]));
}
inline bool rigPosed(const RelScene& a, const std::vector<int>& idx, double lo) {
  double sc = 0; for (auto& q : a.X) sc = std::max(sc, q.norm());
  for (int i : idx) if (a.d1(i).norm() < 0.05 * sc || a.d2(i).norm() < 0.05 * sc) return false;
  return a.t.norm() > 0.03 * sc && genCond(a, idx) > lo;
}
// sigma of the linear 18-parameter system (second smallest singular value; the smallest is the solution)
inline double lin17(const RelScene& a, const std::vector<int>& idx) {
  Eigen::Matrix<double, 18, 18> A = Eigen::Matrix<double, 18, 18>::Zero(), V; Eigen::Matrix<double, 18, 1> ev; double sc = 0; for (int i : idx) sc += a.X[i].norm(); sc /= idx.size();
  for (int i : idx) { V3 d1 = a.rig.rot[a.c1[i]] * a.f1[i], d2 = a.rig.rot[a.c2[i]] * a.f2[i], m1 = a.rig.off[a.c1[i]].cross(d1) / sc, m2 = a.rig.off[a.c2[i]].cross(d2) / sc; Eigen::Matrix<double, 18, 1> r; for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) { r[3 * p + q] = d1[p] * d2[q]; r[9 + 3 * p + q] = d1[p] * m2[q] + m1[p] * d2[q]; } A += r * r.transpose(); }
  jacobiEig<18>(A, ev, V); bool intra = true; for (int i : idx) if (a.c1[i] != a.c2[i]) intra = false; return std::sqrt(std::max(0.0, ev[intra ? 2 : 1])); /* same cameras only: (E=0, R=I) is another solution, which a unit norm of E excludes */
}
