#include "scene.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
using namespace opengv; namespace ap = opengv::absolute_pose;
const char* pbt::RULE = "exact absolute-pose scenes: any pose, omnidirectional / forward / compact point sets or integer grids, 3-6 points of which a random ordered subset is used, structured poses included, scales 1e-4 to 1e4; for the generalized solver a random rig. Non-trivial: the used minimal set is well conditioned (sigma_min of the bearing Jacobian > 1e-2, points apart, not collinear)";

struct Ev { double best = INFINITY; int n = 0; double worstOrtho = 0; transformations_t cons; };
typedef transformations_t (*Solver)(const ap::AbsoluteAdapterBase&, const std::vector<int>&);
static double reprojWorst(const AbsScene& a, const std::vector<int>& idx, const M34& T) { double w = 0; for (int i : idx) w = std::max(w, a.reproj(i, T.leftCols<3>(), T.col(3))); return w; }
static double span(const AbsScene& a, const std::vector<int>& idx) { double sc = 0; for (int i : idx) sc = std::max(sc, (a.p[i] - a.t).norm()); return sc; }
static Ev eval(const AbsScene& a, const std::vector<int>& idx, Solver sv) {
  Ev e; transformations_t r;
  if (a.central) { ap::CentralAbsoluteAdapter ad(a.f, a.p); r = sv(ad, idx); } else { ap::NoncentralAbsoluteAdapter ad(a.f, a.cam, a.p, a.rig.off, a.rig.rot); r = sv(ad, idx); }
  e.n = r.size(); double sc = span(a, idx);
  for (auto& T : r) {
    if (!finite(T)) continue;
    M3 R = T.leftCols<3>(); V3 t = T.col(3);
    e.best = std::min(e.best, std::max(rotErr(R, a.R), tErr(t, a.t, sc)));
    e.worstOrtho = std::max(e.worstOrtho, orthoErr(R));
    if (reprojWorst(a, idx, T) < 1e-7) e.cons.push_back(T);
  }
  return e;
}
static bool wellPosed(const AbsScene& a, const std::vector<int>& idx) {
  double sc = span(a, idx);
  for (int i : idx) { if (a.dir(i, a.R, a.t).norm() < 0.05 * sc) return false;
    for (int j : idx) if (i < j) { if ((a.p[i] - a.p[j]).norm() < 0.05 * sc) return false; double x = angleOf(a.f[i], a.f[j]); if (a.central && (x < 0.05 || x > M_PI - 0.05)) return false; } }
  if (!a.central) { double apart = 0; for (int i : idx) for (int j : idx) apart = std::max(apart, (a.rig.off[a.cam[i]] - a.rig.off[a.cam[j]]).norm()); if (apart < 0.05 * sc) return false; }
  return (a.p[idx[1]] - a.p[idx[0]]).normalized().cross((a.p[idx[2]] - a.p[idx[0]]).normalized()).norm() > 0.05 && absCond(a, idx) > 1e-2;
}
static AbsScene make(Ctx& c, bool generalized, bool grid, std::vector<int>& idx) {
  Src& s = c.s; AbsOpt o; o.n = 3 + s.range(0, 3); o.scale = s.chance(0.3) ? s.logreal(1e-4, 1e4) : 1; if (generalized) { o.cams = s.range(2, 4); o.spread = s.from(0.3, 1.0); } if (grid) { o.shape = 4; o.scale = 1; o.maxT = 3; }
  AbsScene a = absScene(c, o); idx = shuffled(s, o.n, 3);
  if (!wellPosed(a, idx)) c.discard();
  c.note("R=" + str(a.R) + " t=" + str(a.t) + " idx=" + std::to_string(idx[0]) + std::to_string(idx[1]) + std::to_string(idx[2]));
  for (int i : idx) c.note("p=" + str(a.p[i].transpose()) + " f=" + str(a.f[i].transpose()));
  c.nontrivial(); return a;
}
// On integer grids the closed forms meet exact zeros (biquadratic quartics, vanishing leading
// coefficients) for which they are not defined: there only the failure rate is bounded.
static void solverTest(Ctx& c, Solver sv, int bound, bool generalized, bool grid, double tol) {
  std::vector<int> idx; AbsScene a = make(c, generalized, grid, idx);
  if (generalized && rotErr(a.R, M3::Identity()) > 2.7) c.discard(); // Cayley parameters of the solver diverge at half turns
  Ev e = eval(a, idx, sv);
  if (!grid) c.require(e.n >= 1, "no-solution", ""); c.require(e.n <= bound, "too-many", e.n);
  c.require(e.worstOrtho < 1e-9, "not-a-rotation", e.worstOrtho); c.metric("nsol", e.n); c.metric("consistent", e.cons.size());
  accuracy(c, "truth in list", e.best, tol, a, [&](const AbsScene& b) { return wellPosed(b, idx) ? eval(b, idx, sv).best : 0.0; }, "", generalized ? Pers{16, 16, 0.06} : Pers());
}
TEST("p3p_kneip", 300000, 6000000, [](Ctx& c) { solverTest(c, ap::p3p_kneip, 4, false, false, 1e-6); }, [](pbt::Agg& a) { accuracyBounds(a, "truth in list", 3e-14, 1e-12, 6e-5); });
TEST("p3p_gao", 300000, 6000000, [](Ctx& c) { solverTest(c, ap::p3p_gao, 4, false, false, 1e-5); }, [](pbt::Agg& a) { accuracyBounds(a, "truth in list", 1e-12, 1e-9, 2e-3); });
TEST("gp3p", 100000, 2000000, [](Ctx& c) { solverTest(c, ap::gp3p, 8, true, false, 1e-4); }, [](pbt::Agg& a) { accuracyBounds(a, "truth in list", 2e-10, 1e-6, 0.045); });
TEST("p3p_kneip grid", 60000, 1000000, [](Ctx& c) { solverTest(c, ap::p3p_kneip, 4, false, true, 1e-6); }, [](pbt::Agg& a) { accuracyBounds(a, "truth in list", 3e-14, 1e-12, 4e-3); });
TEST("p3p_gao grid", 60000, 1000000, [](Ctx& c) { solverTest(c, ap::p3p_gao, 4, false, true, 1e-5); }, [](pbt::Agg& a) { accuracyBounds(a, "truth in list", 1e-13, 1e-11, 8e-3); });
// both central solvers find every pose consistent with the three bearings
static double mismatch(const AbsScene& a, const std::vector<int>& idx, double* na = 0) {
  Ev k = eval(a, idx, ap::p3p_kneip), g = eval(a, idx, ap::p3p_gao); double sc = span(a, idx), w = 0;
  if (na) *na = k.cons.size();
  for (int d = 0; d < 2; d++) { Ev &x = d ? g : k; Solver other = ap::p3p_gao; if (d) other = ap::p3p_kneip; ap::CentralAbsoluteAdapter ad(a.f, a.p); auto l = other(ad, idx);
    for (auto& T : x.cons) { AbsScene q = a; q.R = T.leftCols<3>(); q.t = T.col(3); if (absCond(q, idx) < 3e-3) continue; double b = INFINITY; for (auto& U : l) if (finite(U)) b = std::min(b, std::max(rotErr(T.leftCols<3>(), U.leftCols<3>()), tErr(T.col(3), U.col(3), sc))); w = std::max(w, b); } }
  return w;
}
// thin triangles, nearby points and narrow views (down to 3e-4): the error may grow with the inverse square of the smallest sine, but the pose is not dropped
static void thinTest(Ctx& c, Solver sv, double tol) {
  Src& s = c.s; AbsOpt o; o.n = 3; o.scale = s.chance(0.3) ? s.logreal(1e-4, 1e4) : 1; AbsScene a = absScene(c, o); double sc = 0; for (auto& x : a.p) sc = std::max(sc, (x - a.t).norm()); int how = s.range(0, 2); double e = s.logreal(3e-4, 0.05); V3 u = a.p[1] - a.p[0];
  if (how == 0) a.p[2] = a.p[0] + u * s.from(-1.5, 2.5) + unitVec(s).cross(u.normalized()).normalized() * e * u.norm(); // nearly collinear
  else if (how == 1) a.p[2] = a.p[s.range(0, 1)] + unitVec(s) * e * sc;                                                      // two points close to each other
  else { V3 m = a.p[0]; for (int i = 0; i < 3; i++) a.p[i] = m + (a.p[i] - m) * e; }                                     // everything within a narrow view
  a.measure(); std::vector<int> idx = shuffled(s, 3, 3); V3 p[3] = {a.p[0], a.p[1], a.p[2]}; double thin = 1, side = INFINITY;
  for (int i = 0; i < 3; i++) { V3 x = p[(i + 1) % 3] - p[i], y = p[(i + 2) % 3] - p[i]; thin = std::min(thin, x.normalized().cross(y.normalized()).norm()); side = std::min(side, x.norm() / sc); side = std::min(side, angleOf(a.f[i], a.f[(i + 1) % 3])); if (a.dir(i, a.R, a.t).norm() < 0.05 * sc || angleOf(a.f[i], a.f[(i + 1) % 3]) > M_PI - 0.05) c.discard(); }
  if (thin < 1e-4 || side < 1e-4 || absCond(a, idx) < 1e-7) c.discard();
  c.nontrivial(); c.label(how == 0 ? "nearly collinear" : how == 1 ? "two near points" : "narrow view"); Ev v = eval(a, idx, sv); c.require(v.n == 0 || v.worstOrtho < 1e-9, "not-a-rotation", v.worstOrtho);
  std::string k = std::string("truth in list, ") + (how == 0 ? "nearly collinear" : how == 1 ? "two near points" : "narrow view"); c.metric(k, v.best); c.soft(k, v.best < tol); c.soft("solutions", v.n > 0);
}
TEST("p3p_kneip thin", 100000, 2000000, [](Ctx& c) { thinTest(c, ap::p3p_kneip, 1e-4); }, [](pbt::Agg& a) { for (const char* k : {"truth in list, narrow view", "truth in list, nearly collinear", "truth in list, two near points"}) accuracyBounds(a, k, 2e-10, 1e-8, 1e-3); a.softAtMost("solutions", 1e-3); });
TEST("p3p_gao thin", 100000, 2000000, [](Ctx& c) { thinTest(c, ap::p3p_gao, 1e-2); }, [](pbt::Agg& a) { accuracyBounds(a, "truth in list, nearly collinear", 1e-8, 2e-5, 0.04); a.seen("truth in list, two near points", 1000); a.softAtMost("truth in list, two near points", 0.4); a.softAtMost("solutions", 1e-3); }); // its coefficients cancel in narrow views
TEST("p3p agreement", 200000, 2000000, [](Ctx& c) {
  std::vector<int> idx; AbsScene a = make(c, false, false, idx); double n; double m = mismatch(a, idx, &n); c.metric("consistent poses", n); c.label("poses " + std::to_string((int)n));
  accuracy(c, "agreement", m, 1e-4, a, [&](const AbsScene& b) { return wellPosed(b, idx) ? mismatch(b, idx) : 0.0; });
}, [](pbt::Agg& a) { accuracyBounds(a, "agreement", 1e-11, 3e-9, 2e-3); });
// two points and the rotation
static double p2pErr(const AbsScene& a, int i, int j, bool vec) {
  ap::CentralAbsoluteAdapter ad(a.f, a.p, a.R); std::vector<int> idx = {i, j};
  V3 t = vec ? ap::p2p(ad, idx) : ap::p2p(ad, i, j); return tErr(t, a.t, span(a, idx));
}
static void p2pTest(Ctx& c, bool grid) {
  Src& s = c.s; AbsOpt o; o.n = 2 + s.range(0, 3); if (s.chance(0.3)) o.scale = s.logreal(1e-4, 1e4); if (grid) { o.shape = 4; o.scale = 1; }
  AbsScene a = absScene(c, o); auto idx = shuffled(s, o.n, 2); double sc = span(a, idx);
  double ang = angleOf(a.f[idx[0]], a.f[idx[1]]); if (ang < 0.03 || ang > M_PI - 0.03) c.discard();
  for (int i : idx) if (a.dir(i, a.R, a.t).norm() < 0.05 * sc) c.discard();
  if (s.chance(0.2)) { a.t.setZero(); for (auto& q : a.p) q = a.p[0]; a.p = absScene(c, o).p; a.measure(); ang = angleOf(a.f[idx[0]], a.f[idx[1]]); if (!(ang > 0.03 && ang < M_PI - 0.03)) c.discard(); for (int i : idx) if (a.dir(i, a.R, a.t).norm() < 0.05 * span(a, idx)) c.discard(); }
  c.nontrivial(); c.note("R=" + str(a.R) + " t=" + str(a.t)); for (int i : idx) c.note("p=" + str(a.p[i].transpose()) + " f=" + str(a.f[i].transpose()));
  double e = p2pErr(a, idx[0], idx[1], s.chance(0.5)); c.metric("p2p", e);
  c.require(e < 1e-8, "p2p", "error ", e, " p0=", str(a.p[idx[0]].transpose()), " p1=", str(a.p[idx[1]].transpose()), " R=", str(a.R), " t=", str(a.t));
}
TEST("p2p", 300000, 6000000, [](Ctx& c) { p2pTest(c, false); }, [](pbt::Agg& a) { a.seen("p2p", 1000); a.atMost("p2p", 0.5, 1e-13); });
TEST("p2p grid", 100000, 1000000, [](Ctx& c) { p2pTest(c, true); }, [](pbt::Agg& a) { a.seen("p2p", 1000); });
