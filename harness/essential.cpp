#include "scene.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
using namespace opengv; namespace rp = opengv::relative_pose;
const char* pbt::RULE = "two-view scenes with non-zero translation, any viewing direction (omnidirectional / forward / compact clouds), rotations up to 180 degrees, structured motions included, random ordered index subsets of the needed size; noise for the linear solver. Non-trivial: sigma_min of the epipolar constraints of the used set > 3e-3";

typedef std::vector<M3, Eigen::aligned_allocator<M3>> Mats;
typedef std::function<Mats(const rp::RelativeAdapterBase&, const std::vector<int>*)> Solver;
static Mats real(const complexEssentials_t& l) { Mats r; for (auto& E : l) { std::complex<double> ph(1, 0); int i, j; E.cwiseAbs().maxCoeff(&i, &j); ph = E(i, j) / std::abs(E(i, j)); complexEssential_t F = E / ph; if (F.imag().norm() < 1e-6 * F.real().norm()) r.push_back(F.real()); } return r; }
static Mats s_stew(const rp::RelativeAdapterBase& a, const std::vector<int>* i) { return real(i ? rp::fivept_stewenius(a, *i) : rp::fivept_stewenius(a)); }
static Mats s_nist(const rp::RelativeAdapterBase& a, const std::vector<int>* i) { auto l = i ? rp::fivept_nister(a, *i) : rp::fivept_nister(a); return Mats(l.begin(), l.end()); }
static Mats s_seven(const rp::RelativeAdapterBase& a, const std::vector<int>* i) { auto l = i ? rp::sevenpt(a, *i) : rp::sevenpt(a); return Mats(l.begin(), l.end()); }
static Mats s_eight(const rp::RelativeAdapterBase& a, const std::vector<int>* i) { return Mats(1, i ? rp::eightpt(a, *i) : rp::eightpt(a)); }
static Mats run(const RelScene& a, const std::vector<int>& idx, const Solver& sv) {
  bool id = idx.size() == a.n(); for (size_t i = 0; i < idx.size(); i++) id &= idx[i] == (int)i;
  rp::CentralRelativeAdapter ad(a.f1, a.f2); Mats r = sv(ad, id ? 0 : &idx), o; for (auto& m : r) if (finite(m) && m.norm() > 0) o.push_back(m / m.norm()); return o;
}
static double best(const RelScene& a, const std::vector<int>& idx, const Solver& sv) { double b = INFINITY; for (auto& E : run(a, idx, sv)) b = std::min(b, upToScale(E, a.E())); return b; }
static V3 sing(const M3& E) { M3 A = E.transpose() * E, V; V3 e; jacobiEig<3>(A, e, V); return V3(std::sqrt(std::max(0., e[2])), std::sqrt(std::max(0., e[1])), std::sqrt(std::max(0., e[0]))); }
static double residual(const RelScene& a, const std::vector<int>& idx, const M3& E) { double w = 0; for (int i : idx) w = std::max(w, std::fabs(a.f1[i].dot(E * a.f2[i]))); return w; }
static bool wellPosed(const RelScene& a, const std::vector<int>& idx) {
  double sc = 0; for (auto& q : a.X) sc = std::max(sc, q.norm());
  for (int i : idx) { if (a.X[i].norm() < 0.02 * sc || (a.X[i] - a.t).norm() < 0.02 * sc) return false; for (int j : idx) if (i < j && (angleOf(a.f1[i], a.f1[j]) < 0.02 || angleOf(a.f2[i], a.f2[j]) < 0.02)) return false; }
  return a.t.norm() > 0.03 * sc && epiCond(a, idx) > 3e-3;
}
// smallest non-zero singular value of the design matrix for the linear solvers (k = index from the bottom of the 9 eigenvalues)
static double linCond(const RelScene& a, const std::vector<int>& idx, int k) {
  Eigen::Matrix<double, 9, 9> A = Eigen::Matrix<double, 9, 9>::Zero(), V; Eigen::Matrix<double, 9, 1> ev;
  for (int i : idx) { Eigen::Matrix<double, 9, 1> r; for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) r[3 * p + q] = a.f1[i][p] * a.f2[i][q]; A += r * r.transpose(); }
  jacobiEig<9>(A, ev, V); return std::sqrt(std::max(0.0, ev[k]));
}
static RelScene make(Ctx& c, int need, int maxn, std::vector<int>& idx, bool exactNeed) {
  Src& s = c.s; RelOpt o; o.n = need + s.range(0, 3); o.maxRot = s.chance(0.5) ? 0.7 : M_PI; o.maxT = s.chance(0.3) ? 6 : 2; if (s.chance(0.2)) o.scale = s.logreal(1e-4, 1e4); if (!exactNeed) o.n = s.range(need, s.chance(0.03) ? 300 : maxn);
  RelScene a = relScene(c, o); if (exactNeed) idx = (o.n == need && s.chance(0.5)) ? shuffled(s, o.n, 0) : shuffled(s, o.n, need); else idx = shuffled(s, o.n, s.range(need, o.n)); if (idx.empty()) for (int i = 0; i < o.n; i++) idx.push_back(i);
  if (!wellPosed(a, idx)) c.discard();
  c.note("R=" + str(a.R) + " t=" + str(a.t) + " correspondences " + std::to_string(idx.size()) + " of " + std::to_string(o.n)); for (size_t k = 0; k < std::min<size_t>(8, idx.size()); k++) c.note("X[" + std::to_string(idx[k]) + "]=" + str(a.X[idx[k]].transpose()));
  c.nontrivial(); return a;
}
static void exact(Ctx& c, const Solver& sv, int need, int maxn, bool exactNeed, bool essential, int bound, double tol, int lin = -1, Pers p = Pers()) {
  std::vector<int> idx; RelScene a = make(c, need, maxn, idx, exactNeed); if (lin >= 0 && linCond(a, idx, lin) < 1e-3) c.discard();
  Mats l = run(a, idx, sv); c.metric("n", l.size()); c.require((int)l.size() <= bound, "count", l.size());
  double r = 0, k = 0; for (auto& E : l) { r = std::max(r, residual(a, idx, E)); V3 s = sing(E); k = std::max(k, essential ? std::max(s[2], s[0] - s[1]) : s[2]); }
  if (exactNeed || lin >= 0) c.require(r < 1e-9, "epipolar constraints", "a candidate violates the constraints of the used correspondences by ", r);
  c.metric("epipolar residual", r); c.metric("internal constraint", k); c.soft("candidates<1e-5", r < 1e-5 && k < 1e-5);
  auto ok = [&](const RelScene& b) { return wellPosed(b, idx) && (lin < 0 || linCond(b, idx, lin) > 1e-3); };
  accuracy(c, "truth", best(a, idx, sv), tol, a, [&](const RelScene& b) { return ok(b) ? best(b, idx, sv) : 0.0; }, "", p);
}
TEST("stewenius", 90000, 1000000, [](Ctx& c) { exact(c, s_stew, 5, 5, true, true, 10, 1e-5); }, [](pbt::Agg& a) { accuracyBounds(a, "truth", 3e-13, 1e-11, 0.006); a.softAtMost("candidates<1e-5", 0.01); });
TEST("nister", 90000, 1000000, [](Ctx& c) { exact(c, s_nist, 5, 5, true, true, 10, 1e-5); }, [](pbt::Agg& a) { accuracyBounds(a, "truth", 1e-13, 5e-13, 0.005); a.softAtMost("candidates<1e-5", 0.01); });
TEST("sevenpt", 90000, 1000000, [](Ctx& c) { exact(c, s_seven, 7, 7, true, false, 3, 1e-5, 2); }, [](pbt::Agg& a) { accuracyBounds(a, "truth", 2e-13, 1e-11, 0.003); a.softAtMost("candidates<1e-5", 0.01); });
TEST("eightpt", 90000, 1000000, [](Ctx& c) { exact(c, s_eight, 8, 40, false, false, 1, 1e-5, 1); }, [](pbt::Agg& a) { accuracyBounds(a, "truth", 1e-13, 5e-13, 0.001); a.softAtMost("candidates<1e-5", 0.01); });
TEST("stewenius many", 30000, 1000000, [](Ctx& c) { exact(c, s_stew, 6, 20, false, true, 10, 1e-5); }, [](pbt::Agg& a) { accuracyBounds(a, "truth", 2e-12, 2e-10, 0.003); });
TEST("nister many", 30000, 1000000, [](Ctx& c) { exact(c, s_nist, 6, 20, false, true, 10, 1e-5); }, [](pbt::Agg& a) { accuracyBounds(a, "truth", 1e-13, 3e-11, 0.003); });
TEST("sevenpt many", 30000, 1000000, [](Ctx& c) { exact(c, s_seven, 8, 20, false, false, 1, 1e-5, 1); }, [](pbt::Agg& a) { accuracyBounds(a, "truth", 1e-13, 5e-13, 0.001); });
// the two five-point solvers find the same real essential matrices
static double mismatch(const RelScene& a, const std::vector<int>& idx, double* n) {
  Mats x = run(a, idx, s_stew), y = run(a, idx, s_nist); double w = 0; if (n) *n = y.size();
  auto good = [&](const M3& E) { V3 s = sing(E); return residual(a, idx, E) < 1e-7 && s[2] < 1e-7 && s[0] - s[1] < 1e-7; };
  for (int d = 0; d < 2; d++) { for (auto& E : d ? x : y) { if (!good(E)) continue; double b = INFINITY; for (auto& F : d ? y : x) b = std::min(b, upToScale(E, F)); w = std::max(w, b); } }
  return w;
}
TEST("fivept agreement", 60000, 500000, [](Ctx& c) {
  std::vector<int> idx; RelScene a = make(c, 5, 5, idx, true); if (c.s.chance(0.5)) a.noise(c.s, 1e-2); double n; double m = mismatch(a, idx, &n); c.label("real solutions " + std::to_string((int)n));
  accuracy(c, "agreement", m, 1e-4, a, [&](const RelScene& b) { return wellPosed(b, idx) ? mismatch(b, idx, 0) : 0.0; });
}, [](pbt::Agg& a) { accuracyBounds(a, "agreement", 1e-12, 5e-11, 0.006); });
// eight-point under noise: the rank-two projection of the least-squares solution, computed here by Jacobi rotations
TEST("eightpt least squares", 60000, 500000, [](Ctx& c) {
  std::vector<int> idx; RelScene a = make(c, 8, 40, idx, false); a.noise(c.s, c.s.logreal(1e-5, 3e-2));
  Eigen::Matrix<double, 9, 9> A = Eigen::Matrix<double, 9, 9>::Zero(), V; Eigen::Matrix<double, 9, 1> ev;
  for (int i : idx) { Eigen::Matrix<double, 9, 1> r; for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) r[3 * p + q] = a.f1[i][p] * a.f2[i][q]; A += r * r.transpose(); }
  jacobiEig<9>(A, ev, V); if (ev[1] - ev[0] < 1e-4) c.discard(); M3 F; for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) F(p, q) = V(3 * p + q, 0);
  M3 B = F.transpose() * F, W; V3 e; jacobiEig<3>(B, e, W); if (e[1] - e[0] < 1e-3) c.discard(); F -= F * W.col(0) * W.col(0).transpose();
  double d = upToScale(run(a, idx, s_eight)[0], F); c.metric("difference", d); c.require(d < 1e-8, "least-squares", d);
}, [](pbt::Agg& a) { a.seen("difference", 1000); });
