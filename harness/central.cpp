#include "scene.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
using namespace opengv; namespace rp = opengv::relative_pose;
const char* pbt::RULE = "two-view scenes (omnidirectional / forward / compact clouds, rotations up to 180 degrees for the closed forms, structured motions included), pure rotations, random ordered index subsets, priors, start values near the truth, weights with weightless gross outliers, noise. Non-trivial: the conditioning measure of the used correspondences exceeds its bound";

static void idxNote(Ctx& c, const RelScene& a, const std::vector<int>& idx) {
  c.note("R=" + str(a.R) + " t=" + str(a.t) + " used " + std::to_string(idx.size()) + " of " + std::to_string(a.n()));
  for (size_t k = 0; k < std::min<size_t>(6, idx.size()); k++) c.note("X[" + std::to_string(idx[k]) + "]=" + str(a.X[idx[k]].transpose()));
}
static RelOpt opt(Ctx& c, int n, double maxRot) { RelOpt o; o.n = n; o.maxRot = maxRot; o.maxT = c.s.chance(0.3) ? 6 : 2; if (c.s.chance(0.2)) o.scale = c.s.logreal(1e-4, 1e4); return o; }

// --- two-point translation -------------------------------------------------------
TEST("twopt", 300000, 5000000, [](Ctx& c) {
  Src& s = c.s; bool unrot = !s.chance(0.3); RelOpt o = opt(c, s.range(2, 6), unrot ? M_PI : 0); RelScene a = relScene(c, o); if (!unrot) { a.R.setIdentity(); a.measure(); }
  int i = s.range(0, a.n() - 1), j = (i + s.range(1, (int)a.n() - 1)) % a.n(); V3 t = a.t.normalized();
  V3 n1 = a.f1[i].cross(a.R * a.f2[i]), n2 = a.f1[j].cross(a.R * a.f2[j]); double cond = n1.cross(n2).norm() ;
  if (n1.norm() < 1e-3 || n2.norm() < 1e-3 || cond / n1.norm() / n2.norm() < 1e-3) c.discard();
  c.nontrivial(); idxNote(c, a, {i, j}); c.label(unrot ? "unrotate" : "no rotation");
  M3 prior = unrot ? a.R : anyRot(s); rp::CentralRelativeAdapter ad(a.f1, a.f2, prior); if (s.chance(0.3)) { ad.setR12(anyRot(s)); ad.setR12(prior); }
  V3 r; int how = s.range(0, 2); std::vector<int> iv{i, j}; if (s.chance(0.5)) iv.push_back((i + 1) % a.n());
  r = how == 0 ? rp::twopt(ad, unrot, (size_t)i, (size_t)j) : how == 1 ? rp::twopt(ad, unrot, iv) : rp::twopt(ad, unrot, iv);
  double e = (r - t).norm() * cond; c.metric("err*cond", e); c.require(std::fabs(r.norm() - 1) < 1e-9, "unit", r.norm()); c.require(e < 1e-12, "direction", "got ", str(r), " expected ", str(t), " conditioning ", cond);
}, [](pbt::Agg& a) { a.seen("err*cond", 100000); });
TEST("twopt default indices", 50000, 500000, [](Ctx& c) {
  RelOpt o = opt(c, c.s.range(2, 5), M_PI); RelScene a = relScene(c, o); rp::CentralRelativeAdapter ad(a.f1, a.f2, a.R); V3 x = rp::twopt(ad, true), y = rp::twopt(ad, true, (size_t)0, (size_t)1);
  c.nontrivial(); idxNote(c, a, {0, 1}); bool same = true; for (int k = 0; k < 3; k++) same &= x[k] == y[k] || (std::isnan(x[k]) && std::isnan(y[k])); c.require(same, "defaults", str(x), " ", str(y));
});
// --- pure rotation ---------------------------------------------------------------
static RelScene rotScene(Ctx& c, int n, double maxRot) { RelOpt o = opt(c, n, maxRot); RelScene a = relScene(c, o); a.t.setZero(); if (c.s.chance(0.15)) a.R = rotSpecial(c.s); a.measure(); return a; }
TEST("twopt_rotationOnly", 300000, 5000000, [](Ctx& c) {
  Src& s = c.s; RelScene a = rotScene(c, s.range(2, 6), M_PI); int i = s.range(0, a.n() - 1), j = (i + s.range(1, (int)a.n() - 1)) % a.n(); double g = angleOf(a.f1[i], a.f1[j]); if (g < 0.02 || g > M_PI - 0.02) c.discard();
  c.nontrivial(); idxNote(c, a, {i, j}); rp::CentralRelativeAdapter ad(a.f1, a.f2, anyRot(s)); std::vector<int> iv{i, j}; bool vec = s.chance(0.5);
  M3 R = vec ? rp::twopt_rotationOnly(ad, iv) : rp::twopt_rotationOnly(ad, (size_t)i, (size_t)j); double cond = std::min(g, M_PI - g) ; double e = rotErr(R, a.R) * cond * cond; c.metric("err*cond", e);
  c.require(isRot(R, 1e-9), "rotation", str(R)); c.require(e < 1e-12, "rotation error", rotErr(R, a.R), " angle between bearings ", g);
}, [](pbt::Agg& a) { a.seen("err*cond", 100000); });
// reference: the rotation maximising sum <f1c, R f2c>, by Horn's quaternion matrix and Jacobi rotations
static M3 horn(const RelScene& a, const std::vector<int>& idx, double& gap) {
  V3 m1 = V3::Zero(), m2 = V3::Zero(); for (int i : idx) { m1 += a.f1[i]; m2 += a.f2[i]; } m1 /= idx.size(); m2 /= idx.size(); M3 S = M3::Zero(); for (int i : idx) S += (a.f2[i] - m2) * (a.f1[i] - m1).transpose();
  Eigen::Matrix4d N; N << S(0,0)+S(1,1)+S(2,2), S(1,2)-S(2,1), S(2,0)-S(0,2), S(0,1)-S(1,0), S(1,2)-S(2,1), S(0,0)-S(1,1)-S(2,2), S(0,1)+S(1,0), S(2,0)+S(0,2), S(2,0)-S(0,2), S(0,1)+S(1,0), -S(0,0)+S(1,1)-S(2,2), S(1,2)+S(2,1), S(0,1)-S(1,0), S(2,0)+S(0,2), S(1,2)+S(2,1), -S(0,0)-S(1,1)+S(2,2);
  Eigen::Matrix4d V; Eigen::Vector4d e; jacobiEig<4>(N, e, V); gap = e[3] - e[2]; Eigen::Vector4d q = V.col(3); return quatToRot(q[0], q[1], q[2], q[3]);
}
static void rotOnly(Ctx& c, bool noise) {
  Src& s = c.s; RelScene a = rotScene(c, s.range(3, s.chance(0.03) ? 300 : 30), M_PI); auto idx = shuffled(s, a.n(), s.range(3, a.n())); if (noise) a.noise(s, s.logreal(1e-5, 0.3));
  double gap; M3 H = horn(a, idx, gap); if (gap < 1e-4) c.discard(); bool all = s.chance(0.3); if (all) { idx.clear(); for (size_t i = 0; i < a.n(); i++) idx.push_back(i); H = horn(a, idx, gap); if (gap < 1e-4) c.discard(); }
  c.nontrivial(); idxNote(c, a, idx); rp::CentralRelativeAdapter ad(a.f1, a.f2, anyRot(s)); M3 R = all ? rp::rotationOnly(ad) : rp::rotationOnly(ad, idx);
  c.require(isRot(R, 1e-9), "rotation", str(R)); double e = rotErr(R, H) * gap; c.metric("err*gap", e); c.require(e < 1e-11, "least squares", rotErr(R, H), " gap ", gap);
  if (!noise) c.require(rotErr(R, a.R) * gap < 1e-11, "truth", rotErr(R, a.R), " gap ", gap);
}
TEST("rotationOnly exact", 100000, 2000000, [](Ctx& c) { rotOnly(c, false); }, [](pbt::Agg& a) { a.seen("err*gap", 50000); });
TEST("rotationOnly noise", 100000, 2000000, [](Ctx& c) { rotOnly(c, true); }, [](pbt::Agg& a) { a.seen("err*gap", 50000); });
// --- five-point rotation solver ----------------------------------------------------
static bool wellPosed(const RelScene& a, const std::vector<int>& idx, double lo = 3e-3) {
  double sc = 0; for (auto& q : a.X) sc = std::max(sc, q.norm());
  for (int i : idx) { if (a.X[i].norm() < 0.02 * sc || (a.X[i] - a.t).norm() < 0.02 * sc) return false; for (int j : idx) if (i < j && (angleOf(a.f1[i], a.f1[j]) < 0.02 || angleOf(a.f2[i], a.f2[j]) < 0.02)) return false; }
  return a.t.norm() > 0.03 * sc && epiCond(a, idx) > lo;
}
static double kneip(const RelScene& a, const std::vector<int>& idx, int* n = 0, double* orth = 0) {
  rp::CentralRelativeAdapter ad(a.f1, a.f2); rotations_t l = rp::fivept_kneip(ad, idx); double b = INFINITY; if (n) *n = l.size();
  for (auto& R : l) { if (orth && finite(R)) *orth = std::max(*orth, (R * R.transpose() - M3::Identity()).norm() + std::fabs(R.determinant() - 1)); b = std::min(b, rotErr(R, a.R)); } return b;
}
TEST("fivept_kneip", 100000, 3000000, [](Ctx& c) {
  Src& s = c.s; RelOpt o = opt(c, s.range(5, 8), s.chance(0.7) ? 0.7 : 2.5); o.structured = s.chance(0.3); RelScene a = relScene(c, o); auto idx = shuffled(s, a.n(), 5); if (!wellPosed(a, idx, 3e-2)) c.discard(); c.nontrivial(); idxNote(c, a, idx);
  int n; double orth = 0; double e = kneip(a, idx, &n, &orth); c.metric("n", n); c.require(n <= 20, "count", n); c.metric("orthogonality", orth); c.require(orth < 1e-2, "proper rotations", orth);
  // the elimination template is numerically fragile: rates only
  c.metric("truth", e); c.soft("truth", e < 1e-3); c.soft(rotErr(a.R, M3::Identity()) > 0.8 ? "truth, rotation > 0.8" : "truth, rotation < 0.8", e < 1e-3); c.soft(a.t.normalized()[2] > 0 ? "truth, forward" : "truth, backward", e < 1e-3);
}, [](pbt::Agg& a) { accuracyBounds(a, "truth", 1e-7, 5e-5, 0.03); for (auto k : {"truth, rotation > 0.8", "truth, rotation < 0.8", "truth, forward", "truth, backward"}) a.softAtMost(k, 0.035); });
// --- eigensolver -------------------------------------------------------------------
// M(R) = sum w (f1 x R f2)(f1 x R f2)^T
static M3 Mof(const RelScene& a, const std::vector<int>& idx, const M3& R, const std::vector<double>* w) {
  M3 M = M3::Zero(); double nn = 0; if (w) { for (int i : idx) nn += (*w)[i] * (*w)[i]; nn = std::sqrt(nn); }
  for (int i : idx) { V3 v = a.f1[i].cross(R * a.f2[i]); M += (w ? (*w)[i] / nn : 1.0) * v * v.transpose(); } return M;
}
struct EsRes { M3 R; eigensolverOutput_t o; };
static EsRes solveEs(const RelScene& a, const std::vector<int>* idx, const M3& start, const std::vector<double>* w, bool useW, bool outArg) {
  EsRes r; std::unique_ptr<rp::RelativeAdapterBase> ad; if (w) ad.reset(new rp::CentralRelativeWeightingAdapter(a.f1, a.f2, *w, start)); else ad.reset(new rp::CentralRelativeAdapter(a.f1, a.f2, start));
  r.o.rotation = start; if (outArg) r.R = idx ? rp::eigensolver(*ad, *idx, r.o, useW) : rp::eigensolver(*ad, r.o, useW); else { r.R = idx ? rp::eigensolver(*ad, *idx, useW) : rp::eigensolver(*ad, useW); } return r;
}
static double esCond(const RelScene& a, const std::vector<int>& idx) { M3 A = Mof(a, idx, a.R, 0), V; V3 e; jacobiEig<3>(A, e, V); return e[1] / std::max(1e-300, (double)idx.size()); }
static void eig(Ctx& c, int mode) { // 0 plain exact, 1 weights with weightless outliers, 2 noise
  Src& s = c.s; RelOpt o = opt(c, s.range(6, s.chance(0.03) ? 300 : 30), 0.5); o.structured = s.chance(0.4); o.shape = s.chance(0.6) ? 0 : -1; RelScene a = relScene(c, o); std::vector<double> w; bool useW = mode == 1 || (mode == 2 && s.chance(0.5));
  std::vector<int> good; for (size_t i = 0; i < a.n(); i++) good.push_back(i); std::vector<int> idx = s.chance(0.5) ? shuffled(s, a.n(), s.range(6, a.n())) : good; if (mode) w.resize(a.n(), 1.0);
  std::vector<int> cond = idx; if (mode) for (auto& x : w) x = s.from(0.2, 5); if (mode == 1) { int first = idx[0]; cond.clear(); for (int i : idx) { if (i != first && s.chance(0.2) ) { w[i] = 0; a.f2[i] = unitVec(s); if (s.chance(0.5)) a.f1[i] = unitVec(s); } else cond.push_back(i); } if (cond.size() < 6) c.discard(); }
  RelScene tr = a; if (mode == 2) a.noise(s, s.logreal(1e-5, 3e-3));
  if (!wellPosed(tr, cond, 1e-2) || esCond(tr, cond) < 2e-3) c.discard();
  M3 start = a.R * axisAngle(unitVec(s), s.from(0, 0.03)); c.nontrivial(); idxNote(c, a, idx); c.note("start error " + std::to_string(rotErr(start, a.R)));
  bool all = idx == good && s.chance(0.7); EsRes r = solveEs(a, all ? 0 : &idx, start, mode ? &w : 0, useW, true);
  c.require(isRot(r.R, 1e-9), "proper rotation", str(r.R)); c.require((r.R - r.o.rotation).norm() == 0, "output", "returned rotation differs from output.rotation");
  EsRes q = solveEs(a, all ? 0 : &idx, start, mode ? &w : 0, useW, false); c.require((q.R - r.R).norm() == 0, "prior overload", (q.R - r.R).norm());
  M3 M = Mof(a, idx, r.R, useW ? &w : 0); V3 ev = r.o.eigenvalues; double fac = ev.sum() / M.trace(); c.require(fac > 0, "eigenvalues", str(ev)); ev /= fac; /* the solver works with a positively scaled M */ double sc = M.norm(); c.require(ev[0] >= ev[1] && ev[1] >= ev[2], "order", str(ev));
  for (int k = 0; k < 3; k++) { V3 v = r.o.eigenvectors.col(k); c.require(std::fabs(v.norm() - 1) < 1e-6 && (M * v - ev[k] * v).norm() < 1e-9 * sc, "eigenpair", k, " ", str(ev), " ", str(v)); }
  V3 t = r.o.translation; c.require(t.norm() > 0 && t.normalized().cross(V3(r.o.eigenvectors.col(2))).norm() < 1e-9, "translation is the weakest eigenvector", str(t));
  double rel = std::max(0.0, ev[2]) / sc; bool ok;
  if (mode < 2) { double e = std::max(rotErr(r.R, a.R), (t.normalized() - a.t.normalized()).norm()); c.metric("error", e); ok = e < 1e-3; c.soft("error", ok); c.metric("smallest eigenvalue", rel); }
  else { M3 A = Mof(a, idx, start, useW ? &w : 0), B = Mof(a, idx, a.R, useW ? &w : 0), V; V3 e0, e1; jacobiEig<3>(A, e0, V); jacobiEig<3>(B, e1, V); c.metric("cost/cost at truth", ev[2] / std::max(e1[0], 1e-300)); c.soft("not above start", ev[2] <= e0[0] * (1 + 1e-6) + 1e-15); c.soft("sign", t.dot(a.t) > 0); }
}
TEST("eigensolver exact", 100000, 2000000, [](Ctx& c) { eig(c, 0); }, [](pbt::Agg& a) { accuracyBounds(a, "error", 3e-14, 1e-12, 0.02); a.atMost("smallest eigenvalue", 0.98, 1e-11); });
TEST("eigensolver weights", 100000, 2000000, [](Ctx& c) { eig(c, 1); }, [](pbt::Agg& a) { accuracyBounds(a, "error", 3e-14, 1e-12, 0.02); a.atMost("smallest eigenvalue", 0.98, 1e-11); });
TEST("eigensolver noise", 100000, 2000000, [](Ctx& c) { eig(c, 2); }, [](pbt::Agg& a) { a.seen("cost/cost at truth", 1000); a.atMost("cost/cost at truth", 0.5, 0.85); a.atMost("cost/cost at truth", 0.98, 1.0); a.softAtMost("not above start", 0.01); a.softAtMost("sign", 0.01); });
