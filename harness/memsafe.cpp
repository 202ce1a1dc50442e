#include "problems.hpp"
#include "algos.hpp"
#include <opengv/math/Sturm.hpp>
#include <opengv/math/roots.hpp>
#include <opengv/math/gauss_jordan.hpp>
#include <opengv/math/arun.hpp>
#include <opengv/math/cayley.hpp>
#include <opengv/math/quaternion.hpp>
#include <opengv/absolute_pose/MACentralAbsolute.hpp>
#include <opengv/absolute_pose/MANoncentralAbsolute.hpp>
#include <opengv/relative_pose/MACentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelative.hpp>
#include <opengv/point_cloud/MAPointCloud.hpp>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/triangulation/methods.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#include <opengv/sac/MultiRansac.hpp>
using namespace opengv;
const char* pbt::RULE = "all 25 algorithms and all 23 sample-consensus problem types under AddressSanitizer, UndefinedBehaviorSanitizer, checked containers and Eigen assertions, mostly on degenerate data (repeated, coincident, collinear, coplanar, far or tiny point sets, no motion, equal, axis-aligned or unrelated bearing vectors, repeated indices, smallest admissible numbers); polynomials and eliminations with arbitrary coefficients; raw-array adapters. A sanitizer report, failed assertion, exception or hang is a violation. Non-trivial: every completed case";
static std::string shape(AlgData& d, Src& s) { return s.chance(0.75) ? degenerate(d, s) : "generic"; }
static M34 somePose(Src& s) { M3 R = anyRot(s); return pose(R, vecIn(s, 3)); }
static int listMax(int a) { switch (a) { case A_P3K: case A_P3G: return 4; case A_GP3P: return 8; case A_UPNP: return 16; case A_STEW: case A_NIST: return 10; case A_F5K: return 20; case A_SIX: return 64; case A_SEVEN: return 3; default: return 1; } }
static void algorithm(Ctx& c, int alg) {
  Src& s = c.s; int n = std::min(40, algMin(alg) + (s.chance(0.5) ? s.range(0, 3) : s.range(0, 14))); n = std::max(n, 3); Case k = make(c, alg, n, s.chance(0.4)); c.label(shape(k.d, s)); auto in = instance(alg, k.d, k.variant); int H = s.range(1, 3);
  for (int h = 0; h < H; h++) {
    int how = LIST; if (s.chance(0.4)) how = algArgs(alg) ? ARGS : algAll(alg) && algMax(alg) == 99 ? ALL : LIST; if (algRand(alg) && s.chance(0.3)) how = how == ALL ? ALL_R : LIST_R; int m = algMin(alg), M = std::min(n, algMax(alg)); if (alg == A_ROT) m = 3;
    Ix ix = shuffled(s, n, s.range(m, std::max(m, M))); if (s.chance(0.2)) { for (auto& i : ix) if (s.chance(0.4)) i = ix[s.below(ix.size())]; c.label("repeated indices"); } if (algMax(alg) == 99 && s.chance(0.12)) { for (int q = s.range(1, 3 * n + 10); q > 0; q--) ix.push_back(ix[s.below(ix.size())]); c.label("more indices than correspondences"); } if (how == ALL || how == ALL_R) ix = iota(n);
    if (s.chance(0.4)) in->setPrior(somePose(s)); srand(s.range(1, 1 << 20)); Out o = in->run(alg, how, ix, s.chance(0.7)); c.require((int)o.size() <= listMax(alg), "too many solutions", algName[alg], ": ", o.size());
  }
  c.nontrivial();
}
static void degen(ProblemData& d, Src& s, Ctx& c) { AlgData q; q.a = d.a; q.r = d.r; q.p1 = d.p1; q.p2 = d.p2; q.w = d.w; c.label(shape(q, s)); d.a = q.a; d.r = q.r; d.p1 = q.p1; d.p2 = q.p2; d.w = q.w; }
static void problem(Ctx& c, int kind) {
  Src& s = c.s; c.label(kindName[kind]); int m = sizeOf(kind); bool slow = kind == NSIX || kind == MSIX || kind == NGE || kind == MGE; GenOpt g; g.n = s.chance(0.15) ? s.range(1, m) : s.range(m, m + 25); g.maxRot = s.chance(0.5) ? 0.5 : M_PI; if (isMulti(kind) && s.chance(0.5)) g.n += 20; int n = g.n; ProblemData d = genData(c, kind, g); degen(d, s, c);
  if (kind >= STEWENIUS && kind <= TRANSONLY) { d.w.assign(n, 1.0); }
  ProbOpt po; po.adapterVariant = s.range(0, 1); if (s.chance(0.3)) { po.useRestrict = true; po.restrict_ = shuffled(s, n, s.range(0, n)); }
  auto p = makeProblem(kind, d, po); p->setPrior(s.chance(0.5) ? truthOf(kind, d) : somePose(s)); p->reseed(s.below(1ull << 30)); srand(s.range(1, 1 << 20)); M34 model = truthOf(kind, d); bool six = kind == NSIX || kind == MSIX; int H = s.range(1, slow ? 3 : 8);
  for (int h = 0; h < H; h++) {
    if (s.chance(0.15)) p->setPrior(somePose(s)); if (s.chance(0.2)) p->setIndices(p->grouped(shuffled(s, n, s.range(0, n)))); if (s.chance(0.2)) model = s.chance(0.5) ? somePose(s) : truthOf(kind, d); Ix all = p->indices(); double thr = s.chance(0.1) ? 0 : s.logreal(1e-12, 3);
    switch (s.range(0, 7)) {
      case 0: { Ix q = p->draw(); if (q.empty()) break; M34 t; if (p->hypothesis(q, t) && finite(t)) model = t; break; }
      case 1: { if (isMulti(kind) || n < m) break; Ix q = shuffled(s, n, m); if (s.chance(0.3)) for (auto& i : q) if (s.chance(0.5)) i = q[0]; M34 t; if (p->hypothesis(q, t) && finite(t)) model = t; break; }
      case 2: { Ix q = shuffled(s, n, s.range(0, n)); if (!q.empty() && s.chance(0.1)) for (int r = s.range(1, 3 * n); r > 0; r--) q.push_back(q[s.below(q.size())]); q = p->grouped(q); auto v = p->scores(model, q); c.require(v.size() == q.size(), "scores", ""); break; }
      case 3: { auto v = p->allScores(model); c.require(v.size() == all.size(), "scores", ""); break; }
      case 4: { int k = p->count(model, thr); c.require(k >= 0 && k <= (int)all.size(), "count", k); break; }
      case 5: { Ix q = p->select(model, thr); c.require(q.size() <= all.size(), "select", ""); break; }
      case 6: { int lo = isAbs(kind) || kind == CLOUD ? 6 : kind == ROTONLY ? 3 : 8; if (kind == TWOPT && false) break; if (n < lo) break; Ix q = shuffled(s, n, s.range(lo, n)); if (s.chance(0.1)) for (int r = s.range(1, 3 * n); r > 0; r--) q.push_back(q[s.below(q.size())]); q = p->grouped(q); M34 keep = p->prior(); M34 t = p->optimise(q, model); if (finite(t)) model = t; p->setPrior(keep); break; }
      default: { bool lm = !isMulti(kind) && s.chance(0.4); Result r = p->robust(lm, s.range(1, six ? 1 : slow ? 4 : 20), thr, s.pick(std::vector<double>{0.5, 0.99, 0.999999, 0, 1})); if (r.ok) { c.require(r.inliers.size() <= all.size(), "inliers", ""); if (finite(r.model)) model = r.model; } }
    }
  }
  c.nontrivial();
}
// --- polynomials and eliminations with arbitrary coefficients --------------------------------
static double coef(Src& s) { switch (s.range(0, 5)) { case 0: return s.range(-3, 3); case 1: return s.real(-1, 1); case 2: return s.real(-1, 1) * std::pow(10, s.range(-12, 12)); case 3: return 0; case 4: return s.chance(0.5) ? 1 : -1; default: return s.range(-1000, 1000); } }
static void polys(Ctx& c) {
  Src& s = c.s; int deg = s.range(1, 10); std::vector<double> p; if (s.chance(0.5)) for (int i = 0; i <= deg; i++) p.push_back(coef(s)); else { p = {coef(s)}; double r = s.real(-5, 5); for (int i = 0; i < deg; i++) { if (s.chance(0.6)) r = s.chance(0.5) ? s.range(-4, 4) : s.real(-5, 5); p.push_back(0); for (int k = (int)p.size() - 1; k > 0; k--) p[k] -= r * p[k - 1]; } if (s.chance(0.3)) for (auto& x : p) x *= 1 + 1e-9 * s.real(-1, 1); }
  for (double x : p) c.note(x); if (p[0] == 0) p[0] = 1; // a leading coefficient of zero is not a polynomial of this degree
  math::Sturm a(p); Eigen::MatrixXd e(1, p.size()); for (size_t i = 0; i < p.size(); i++) e(0, i) = p[i]; math::Sturm b(e); auto r = s.chance(0.5) ? a.findRoots() : b.findRoots(); c.metric("roots", r.size()); c.require(r.size() <= 1000, "number of roots", r.size()); std::vector<double> q; a.findRoots2(q, s.chance(0.5) ? -1 : s.logreal(1e-12, 1), s.chance(0.5) ? 1e-9 : s.logreal(1e-15, 1)); a.bracketRoots(q, s.chance(0.5) ? -1 : s.logreal(1e-12, 1)); a.evaluateChain(s.real(-9, 9)); b.evaluateChain2(s.real(-9, 9)); a.computeLagrangianBound(); c.nontrivial();
}
static void closed(Ctx& c) { Src& s = c.s; std::vector<double> p; for (int i = 0; i < 4; i++) p.push_back(coef(s)); auto r = math::o3_roots(p); c.require(r.size() <= 3, "cubic", ""); p.push_back(coef(s)); auto q = math::o4_roots(p); c.require(q.size() <= 4, "quartic", ""); Eigen::MatrixXd e(5, 1); for (int i = 0; i < 5; i++) e(i, 0) = p[i]; math::o4_roots(e);
  M3 H; for (int k = 0; k < 9; k++) H(k) = coef(s); math::arun(H); V3 v(coef(s), coef(s), coef(s)); math::cayley2rot(v); math::cayley2rot_reduced(v); math::rot2cayley(anyRot(s)); math::rot2quaternion(anyRot(s)); math::quaternion2rot(Eigen::Vector4d(coef(s), coef(s), coef(s), coef(s))); c.nontrivial(); }
static void gj(Ctx& c) { Src& s = c.s; int n = s.range(1, 8), m = n + s.range(0, 6); std::vector<std::vector<double>> rows(n, std::vector<double>(m)); std::vector<std::vector<double>*> M; for (auto& r : rows) { for (auto& x : r) x = s.chance(0.4) ? 0 : coef(s); M.push_back(&r); } if (s.chance(0.3) && n > 1) rows[0] = rows[1]; math::gauss_jordan(M, s.chance(0.5) ? 0 : s.range(0, n - 1)); c.nontrivial(); }
// --- adapters over raw arrays of exactly the documented size ------------------------------------
template <class L> static std::unique_ptr<double[]> raw(const L& a, int w, const std::vector<V3>* more = nullptr) { std::unique_ptr<double[]> p(new double[std::max<size_t>(1, a.size() * w)]); for (size_t i = 0; i < a.size(); i++) { for (int k = 0; k < 3; k++) p[w * i + k] = a[i][k]; if (w == 6) for (int k = 0; k < 3; k++) p[w * i + 3 + k] = (*more)[i][k]; } return p; }
static void rawArrays(Ctx& c) {
  Src& s = c.s; int kind = s.range(0, 4), n = s.range(6, 20); AlgData d; std::vector<V3> off(n); { GenOpt g; g.n = n; for (auto& o : off) o = vecIn(s, 1); }
  if (kind < 2) { AbsOpt o; o.n = n; d.a = absScene(c, o); } else { RelOpt o; o.n = n; d.r = relScene(c, o); if (kind == 4) for (auto& x : d.r.X) { d.p1.push_back(x); d.p2.push_back(d.r.R.transpose() * (x - d.r.t)); } } c.label(shape(d, s)); c.label(kind == 0 ? "MACentralAbsolute" : kind == 1 ? "MANoncentralAbsolute" : kind == 2 ? "MACentralRelative" : kind == 3 ? "MANoncentralRelative" : "MAPointCloud");
  Ix ix = shuffled(s, n, s.range(6, n)); srand(1);
  if (kind == 0) { auto x = raw(d.a.p, 3), y = raw(d.a.f, 3); absolute_pose::MACentralAbsolute a(x.get(), y.get(), n, n); switch (s.range(0, 3)) { case 0: absolute_pose::epnp(a, ix); break; case 1: absolute_pose::p3p_kneip(a, ix); break; case 2: absolute_pose::upnp(a, ix); break; default: absolute_pose::optimize_nonlinear(a); } }
  else if (kind == 1) { auto x = raw(d.a.p, 3), y = raw(d.a.f, 6, &off); absolute_pose::MANoncentralAbsolute a(x.get(), y.get(), n, n); switch (s.range(0, 3)) { case 0: absolute_pose::gpnp(a, ix); break; case 1: absolute_pose::gp3p(a, ix); break; case 2: absolute_pose::upnp(a); break; default: absolute_pose::optimize_nonlinear(a, ix); } }
  else if (kind == 2) { auto x = raw(d.r.f1, 3), y = raw(d.r.f2, 3); relative_pose::MACentralRelative a(x.get(), y.get(), n, n); switch (s.range(0, 3)) { case 0: relative_pose::fivept_nister(a, ix); break; case 1: if (n > 7) relative_pose::eightpt(a); break; case 2: relative_pose::rotationOnly(a, ix); break; default: triangulation::triangulate2(a, n - 1); } }
  else if (kind == 3) { auto x = raw(d.r.f1, 6, &off), y = raw(d.r.f2, 6, &off); relative_pose::MANoncentralRelative a(x.get(), y.get(), n, n); switch (s.range(0, 2)) { case 0: relative_pose::ge(a, ix); break; case 1: if (n > 16) relative_pose::seventeenpt(a); break; default: relative_pose::optimize_nonlinear(a, ix); } }
  else { auto x = raw(d.p1, 3), y = raw(d.p2, 3); point_cloud::MAPointCloud a(x.get(), y.get(), n, n); if (s.chance(0.5)) point_cloud::threept_arun(a, ix); else point_cloud::optimize_nonlinear(a); }
  c.nontrivial();
}
static void viewPairs(Ctx& c) {
  Src& s = c.s; int pairs = s.range(0, 4), m = s.range(8, 11); std::vector<std::shared_ptr<bearingVectors_t>> b1, b2; std::vector<std::vector<int>> sub(pairs);
  for (int k = 0; k < pairs; k++) { int n = s.chance(0.1) ? s.range(0, 8) : m + s.range(0, 10); GenOpt g; g.n = std::max(n, 1); g.maxRot = M_PI; ProblemData d = genData(c, EIGHTPT, g); degen(d, s, c); d.r.f1.resize(n); d.r.f2.resize(n); b1.emplace_back(new bearingVectors_t(d.r.f1)); b2.emplace_back(new bearingVectors_t(d.r.f2)); sub[k] = shuffled(s, n, s.range(std::max(0, n - 3), n)); }
  relative_pose::CentralRelativeMultiAdapter A(b1, b2); A.setR12(anyRot(s)); A.sett12(vecIn(s, 2)); typedef sac_problems::relative_pose::MultiCentralRelativePoseSacProblem P; std::shared_ptr<P> p(s.chance(0.5) ? new P(A, m, false) : new P(A, sub, m, false)); if (pairs == 0) { c.nontrivial(); return; }
  sac::MultiRansac<P> r(s.range(1, 10), s.logreal(1e-9, 1), 0.99); r.sac_model_ = p; bool ok = r.computeModel(0); if (ok) { c.require((int)r.model_coefficients_.size() == pairs, "number of poses", r.model_coefficients_.size()); P::model_t o; p->optimizeModelCoefficients(r.inliers_, r.model_coefficients_, o); std::vector<std::vector<double>> sc(pairs); p->getDistancesToModel(o, sc); } c.nontrivial();
}
TEST("pairs of views", 3000, 60000, viewPairs, [](pbt::Agg&) {});
TEST("polynomials", 60000, 1200000, polys, [](pbt::Agg&) {}); TEST("closed forms", 60000, 1200000, closed, [](pbt::Agg&) {}); TEST("gauss_jordan", 20000, 400000, gj, [](pbt::Agg&) {}); TEST("raw arrays", 15000, 300000, rawArrays, [](pbt::Agg&) {});
static struct Reg { Reg() { static std::vector<std::string> names; names.reserve(100);
  for (int a = 0; a < ALGS; a++) { names.push_back(std::string("algorithm ") + algName[a]); std::string nm = algName[a]; size_t q = a == A_SIX ? 150 : a == A_F5K ? 500 : a == A_UPNP || nm.find("optimize") != nm.npos || nm == "gpnp" ? 1500 : 6000; pbt::tests().push_back(pbt::Test{names.back().c_str(), q, 25 * q, [a](Ctx& c) { algorithm(c, a); }, [](pbt::Agg&) {}}); }
  for (int k = 0; k < KINDS; k++) { names.push_back(std::string("problem ") + kindName[k]); size_t q = k == NSIX ? 120 : k == MSIX ? 60 : k == GP3P || k == MABS ? 1000 : 2500; pbt::tests().push_back(pbt::Test{names.back().c_str(), q, 25 * q, [k](Ctx& c) { problem(c, k); }, [](pbt::Agg&) {}}); } } } reg;
