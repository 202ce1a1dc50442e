#include "scene.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
using namespace opengv; namespace ap = opengv::absolute_pose;
const char* pbt::RULE = "absolute-pose scenes with 3-40 points (6 and more for EPnP/gPnP), any pose, omnidirectional / forward / compact (UPnP also planar) clouds, single camera or random rigs, random ordered index subsets, exact or with bearing noise 1e-5..1e-2 rad. Non-trivial: used set well conditioned (sigma_min of the bearing Jacobian > 1e-2), points not close to a plane or line where the solver needs volume";

struct Ev { double best = INFINITY; double ortho = 0; int n = 0; };
typedef std::function<transformations_t(const ap::AbsoluteAdapterBase&, const std::vector<int>*)> Solver;
static transformations_t s_epnp(const ap::AbsoluteAdapterBase& a, const std::vector<int>* i) { transformations_t r; r.push_back(i ? ap::epnp(a, *i) : ap::epnp(a)); return r; }
static transformations_t s_gpnp(const ap::AbsoluteAdapterBase& a, const std::vector<int>* i) { transformations_t r; r.push_back(i ? ap::gpnp(a, *i) : ap::gpnp(a)); return r; }
static transformations_t s_upnp(const ap::AbsoluteAdapterBase& a, const std::vector<int>* i) { return i ? ap::upnp(a, *i) : ap::upnp(a); }
static double span(const AbsScene& a, const std::vector<int>& idx) { double sc = 0; for (int i : idx) sc = std::max(sc, (a.p[i] - a.t).norm()); return sc; }
static double poseErr(const M34& T, const M3& R, const V3& t, double sc) { return std::max(rotErr(T.leftCols<3>(), R), tErr(T.col(3), t, sc)); }
static transformations_t run(const AbsScene& a, const std::vector<int>& idx, const Solver& sv) {
  const std::vector<int>* ip = &idx; if (idx.size() == a.n()) { bool id = true; for (size_t i = 0; i < idx.size(); i++) id &= idx[i] == (int)i; if (id) ip = 0; }
  if (a.central) { ap::CentralAbsoluteAdapter ad(a.f, a.p); return sv(ad, ip); } ap::NoncentralAbsoluteAdapter ad(a.f, a.cam, a.p, a.rig.off, a.rig.rot); return sv(ad, ip);
}
static Ev eval(const AbsScene& a, const std::vector<int>& idx, const Solver& sv, const M3* Rt = 0, const V3* tt = 0) {
  Ev e; auto r = run(a, idx, sv); e.n = r.size(); double sc = span(a, idx);
  for (auto& T : r) { if (!finite(T)) continue; e.best = std::min(e.best, poseErr(T, Rt ? *Rt : a.R, tt ? *tt : a.t, sc)); e.ortho = std::max(e.ortho, orthoErr(T.leftCols<3>())); }
  return e;
}
// extent of the used points along their three principal directions
static V3 extents(const AbsScene& a, const std::vector<int>& idx) {
  V3 m = V3::Zero(); for (int i : idx) m += a.p[i]; m /= idx.size(); M3 S = M3::Zero(), V; for (int i : idx) S += (a.p[i] - m) * (a.p[i] - m).transpose(); V3 ev; jacobiEig<3>(S / idx.size(), ev, V); return ev.cwiseMax(0).cwiseSqrt() / span(a, idx);
}
// The solvers work with linear equations of the control points: sigma_min of that system (12 unknowns,
// bearings divided by nothing) tells how close the point set is to one of its critical surfaces.
static bool wellPosed(const AbsScene& a, const std::vector<int>& idx, bool volume) {
  double sc = span(a, idx); for (int i : idx) { if (a.dir(i, a.R, a.t).norm() < 0.05 * sc) return false; }
  V3 e = extents(a, idx); if (volume ? e[0] < 0.08 : e[1] < 0.08) return false;
  return absCond(a, idx) > 1e-2;
}
static AbsScene make(Ctx& c, int lo, int hi, bool cams, bool volume, bool planar, std::vector<int>& idx, double scaleRange = 1000) {
  Src& s = c.s; AbsOpt o; o.n = s.range(lo, hi > 20 && s.chance(0.03) ? 400 : hi); o.scale = s.chance(0.3) ? s.logreal(1 / scaleRange, scaleRange) : 1; if (cams) { o.cams = s.range(2, 6); o.spread = s.from(0.3, 1.5); } if (planar) o.shape = 3;
  AbsScene a = absScene(c, o); idx.clear();
  if (s.chance(0.5)) for (int i = 0; i < o.n; i++) idx.push_back(i); else idx = shuffled(s, o.n, s.range(lo, o.n));
  if (!wellPosed(a, idx, volume)) c.discard();
  c.label(idx.size() <= 4 ? "3-4 points" : idx.size() <= 6 ? "5-6 points" : idx.size() <= 12 ? "7-12 points" : "13+ points");
  c.note("R=" + str(a.R) + " t=" + str(a.t) + " used points " + std::to_string(idx.size()) + " of " + std::to_string(o.n)); if (cams) c.note("cameras " + std::to_string(o.cams));
  c.nontrivial(); return a;
}
static void exact(Ctx& c, const Solver& sv, int lo, int hi, bool cams, bool volume, bool planar, double tol, int bound, Pers p = Pers()) {
  std::vector<int> idx; AbsScene a = make(c, lo, hi, cams, volume, planar, idx);
  if (cams) { double apart = 0; for (int i : idx) for (int j : idx) apart = std::max(apart, (a.rig.off[a.cam[i]] - a.rig.off[a.cam[j]]).norm()); if (apart < 0.05 * span(a, idx)) c.discard(); }
  Ev e = eval(a, idx, sv); c.metric("n", e.n); c.metric("ortho", e.ortho);
  c.require((e.n >= 1 || !p.k) && e.n <= bound, "count", e.n); c.require(e.n == 0 || e.ortho < 1e-9, "not-a-rotation", e.ortho);
  accuracy(c, "exact", e.best, tol, a, [&](const AbsScene& b) { return wellPosed(b, idx, volume) ? eval(b, idx, sv).best : 0.0; }, "", p);
}
// noise: error relative to noise / conditioning
static void noisy(Ctx& c, const Solver& sv, int lo, int hi, bool cams, bool volume, double maxRel) {
  std::vector<int> idx; AbsScene a = make(c, lo, hi, cams, volume, false, idx); double sig = c.s.logreal(1e-5, 1e-2), cond = absCond(a, idx) ;
  if (cams) { double apart = 0; for (int i : idx) for (int j : idx) apart = std::max(apart, (a.rig.off[a.cam[i]] - a.rig.off[a.cam[j]]).norm()); if (apart < 0.05 * span(a, idx)) c.discard(); }
  uint64_t ns = c.s.below(1ull << 30);
  auto rel = [&](const AbsScene& b) { if (!wellPosed(b, idx, volume)) return 0.0; AbsScene q = b; Src r(ns); q.noise(r, sig); Ev e = eval(q, idx, sv); return e.best * absCond(b, idx) / sig; };
  (void)cond; accuracy(c, "error/noise", rel(a), maxRel, a, rel);
}
TEST("epnp exact", 120000, 3000000, [](Ctx& c) { exact(c, s_epnp, 6, 40, false, true, false, 1e-4, 1); }, [](pbt::Agg& a) { accuracyBounds(a, "exact", 1e-13, 1e-11, 5e-4); });
TEST("gpnp exact", 50000, 1000000, [](Ctx& c) { exact(c, s_gpnp, 6, 40, true, true, false, 1e-4, 1); }, [](pbt::Agg& a) { accuracyBounds(a, "exact", 1e-12, 1e-11, 3e-4); });
TEST("upnp exact central", 40000, 1000000, [](Ctx& c) { exact(c, s_upnp, 5, 40, false, false, false, 1e-4, 16); }, [](pbt::Agg& a) { accuracyBounds(a, "exact", 1e-14, 1e-12, 1e-3); });
TEST("upnp exact rig", 40000, 1000000, [](Ctx& c) { exact(c, s_upnp, 5, 40, true, false, false, 1e-4, 16); }, [](pbt::Agg& a) { accuracyBounds(a, "exact", 1e-14, 1e-12, 1e-3); });
TEST("upnp exact planar", 20000, 500000, [](Ctx& c) { exact(c, s_upnp, 5, 40, c.s.chance(0.5), false, true, 1e-4, 16); }, [](pbt::Agg& a) { accuracyBounds(a, "exact", 1e-14, 1e-12, 1e-3); });
// with three and four points another elimination template is used, which loses the pose in a few percent of the scenes: rate only
TEST("upnp exact 3 points", 4000, 50000, [](Ctx& c) { exact(c, s_upnp, 3, 3, c.s.chance(0.5), false, false, 1e-4, 16, Pers{0, 1, 0}); }, [](pbt::Agg& a) { accuracyBounds(a, "exact", 1e-12, 1e-6, 0.09); });
TEST("upnp exact 4 points", 4000, 50000, [](Ctx& c) { exact(c, s_upnp, 4, 4, c.s.chance(0.5), false, false, 1e-4, 16, Pers{0, 1, 0}); }, [](pbt::Agg& a) { a.seen("exact", 200); a.atMost("exact", 0.5, 1e-7); a.softAtMost("exact", 0.3); });
TEST("epnp noise", 60000, 1000000, [](Ctx& c) { noisy(c, s_epnp, 6, 40, false, true, 100); }, [](pbt::Agg& a) { accuracyBounds(a, "error/noise", 5, 20, 2e-3); });
TEST("gpnp noise", 20000, 500000, [](Ctx& c) { noisy(c, s_gpnp, 6, 40, true, true, 300); }, [](pbt::Agg& a) { accuracyBounds(a, "error/noise", 5, 22, 0.0035); });
TEST("upnp noise", 30000, 500000, [](Ctx& c) { noisy(c, s_upnp, 5, 40, c.s.chance(0.5), false, 30); }, [](pbt::Agg& a) { accuracyBounds(a, "error/noise", 2.5, 4, 2e-3); });
// UPnP: the list contains the minimiser of the object-space error, computed here by damped Gauss-Newton from the truth
static double objErr(const AbsScene& a, const std::vector<int>& idx, const M3& R, const V3& t, Eigen::VectorXd* r = 0, Eigen::MatrixXd* J = 0) {
  double e = 0; if (r) { r->resize(3 * idx.size()); J->resize(3 * idx.size(), 6); }
  for (size_t k = 0; k < idx.size(); k++) { int i = idx[k]; V3 f = a.f[i], v = V3::Zero(); if (!a.central) { f = a.rig.rot[a.cam[i]] * f; v = a.rig.off[a.cam[i]]; }
    M3 P = M3::Identity() - f * f.transpose(); V3 b = R.transpose() * (a.p[i] - t), q = P * (b - v); e += q.squaredNorm();
    if (r) { r->segment<3>(3 * k) = q; J->block<3, 3>(3 * k, 0) = P * skew(b); J->block<3, 3>(3 * k, 3) = -P * R.transpose(); } }
  return e;
}
static bool refine(const AbsScene& a, const std::vector<int>& idx, M3& R, V3& t) {
  Eigen::VectorXd r; Eigen::MatrixXd J; double lam = 1e-6;
  for (int it = 0; it < 200; it++) {
    double e = objErr(a, idx, R, t, &r, &J); Eigen::Matrix<double, 6, 6> A = J.transpose() * J; Eigen::Matrix<double, 6, 1> g = J.transpose() * r;
    Eigen::Matrix<double, 6, 6> B = A; for (int k = 0; k < 6; k++) B(k, k) += lam * (A(k, k) + 1e-12); Eigen::Matrix<double, 6, 1> d = -B.ldlt().solve(g);
    V3 w = d.head<3>(); double ang = w.norm(); M3 R2 = ang > 0 ? M3(R * axisAngle(w / ang, ang)) : R; V3 t2 = t + d.tail<3>();
    if (objErr(a, idx, R2, t2) <= e) { R = R2; t = t2; lam = std::max(lam * 0.1, 1e-14); if (ang < 1e-13) return true; } else { lam *= 10; if (lam > 1e8) return ang < 1e-7; }
  }
  return true;
}
TEST("upnp optimum", 20000, 300000, [](Ctx& c) {
  std::vector<int> idx; AbsScene a = make(c, 5, 30, c.s.chance(0.5), false, false, idx); double sig = c.s.logreal(1e-4, 1e-2); uint64_t ns = c.s.below(1ull << 30);
  auto err = [&](const AbsScene& b) { if (!wellPosed(b, idx, false)) return 0.0; AbsScene q = b; Src rs(ns); q.noise(rs, sig); M3 R = b.R; V3 t = b.t; if (!refine(q, idx, R, t) || rotErr(R, b.R) > 0.2) return 0.0; return eval(q, idx, s_upnp, &R, &t).best * absCond(b, idx) / sig; };
  accuracy(c, "optimum", err(a), 1, a, err, "sigma " + std::to_string(sig) + " n " + std::to_string(idx.size()));
}, [](pbt::Agg& a) { accuracyBounds(a, "optimum", 1e-4, 0.02, 0.01); });
// Few different points among six and more correspondences: repeated ones, or points seen by two cameras of the rig. The linear
// system then has a null space of several dimensions and the other branches of EPnP and gPnP have to find the pose.
static void few(Ctx& c, const Solver& sv, int d, bool cams, double tol) {
  Src& s = c.s; std::vector<int> idx; AbsScene a = make(c, d, d, cams, true, false, idx); int dbl = 0; std::vector<int> more = idx;
  if (cams) { double apart = 0; for (int i : idx) for (int j : idx) apart = std::max(apart, (a.rig.off[a.cam[i]] - a.rig.off[a.cam[j]]).norm()); if (apart < 0.05 * span(a, idx)) c.discard();
    dbl = s.range(0, d == 4 ? 3 : 1); for (int k = 0; k < dbl; k++) { int q = (a.cam[idx[k]] + 1 + s.range(0, (int)a.rig.off.size() - 2)) % (int)a.rig.off.size(); a.p.push_back(a.p[idx[k]]); a.cam.push_back(q); more.push_back((int)a.p.size() - 1); if ((a.rig.off[q] - a.rig.off[a.cam[idx[k]]]).norm() < 0.1) c.discard(); } a.measure(); }
  int n = s.range(6, 8); while ((int)more.size() < n) more.push_back(more[s.below(more.size())]); for (int i = (int)more.size() - 1; i > 0; i--) std::swap(more[i], more[s.range(0, i)]);
  c.label(std::to_string(d) + " points, " + std::to_string(dbl) + " seen twice"); for (int i : more) if (a.dir(i, a.R, a.t).norm() < 0.05 * span(a, more)) c.discard();
  Ev e = eval(a, more, sv); c.require(e.n == 1, "count", e.n); c.require(e.ortho < 1e-9, "not-a-rotation", e.ortho); std::string k = dbl ? "seen twice" : "repeated"; c.metric(k, e.best); c.soft(k, e.best < tol);
}
static void fewB(pbt::Agg& a, const std::string& k, double q50, double q90, double rate) { a.seen(k, 200); a.atMost(k, 0.5, q50); if (q90 > 0) a.atMost(k, 0.9, q90); a.softAtMost(k, rate); }
TEST("epnp 5 different points", 8000, 100000, [](Ctx& c) { few(c, s_epnp, 5, false, 1e-4); }, [](pbt::Agg& a) { fewB(a, "repeated", 1e-13, 1e-11, 2e-3); });
TEST("epnp 4 different points", 12000, 100000, [](Ctx& c) { few(c, s_epnp, 4, false, 1e-4); }, [](pbt::Agg& a) { fewB(a, "repeated", 10, 0, 0.55); });
TEST("gpnp 5 different points", 8000, 100000, [](Ctx& c) { few(c, s_gpnp, 5, true, 1e-4); }, [](pbt::Agg& a) { fewB(a, "repeated", 1e-12, 1e-9, 2e-3); fewB(a, "seen twice", 1e-12, 1e-9, 2e-3); });
TEST("gpnp 4 different points", 20000, 100000, [](Ctx& c) { few(c, s_gpnp, 4, true, 1e-4); }, [](pbt::Agg& a) { fewB(a, "repeated", 1e-12, 1e-8, 2e-3); fewB(a, "seen twice", 1e-12, 1e-8, 2e-3); });
