#include "problems.hpp"
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/MultiRansac.hpp>
using namespace opengv; namespace ap = absolute_pose; namespace rp = relative_pose; namespace sap = sac_problems::absolute_pose; namespace srp = sac_problems::relative_pose;
const char* kindName[KINDS] = {"TWOPT", "KNEIP", "GAO", "EPNP", "GP3P", "MultiNoncentralAbsolute", "MultiNoncentralAbsolute asCentral", "STEWENIUS", "NISTER", "SEVENPT", "EIGHTPT", "Eigensolver", "RotationOnly", "TranslationOnly", "Noncentral SIXPT", "Noncentral GE", "Noncentral SEVENTEENPT", "Noncentral asCentral", "Multi SIXPT", "Multi GE", "Multi SEVENTEENPT", "Multi asCentral", "PointCloud"};

// models <-> 3x4
static void to(const M34& m, transformation_t& o) { o = m; }
static void to(const M34& m, rotation_t& o) { o = m.leftCols<3>(); }
static void to(const M34& m, eigensolverOutput_t& o) { o.rotation = m.leftCols<3>(); o.translation = m.col(3); o.eigenvalues.setZero(); o.eigenvectors.setIdentity(); }
static M34 from(const transformation_t& m) { return m; }
static M34 from(const rotation_t& m) { return pose(m, V3::Zero()); }
static M34 from(const eigensolverOutput_t& m) { return pose(m.rotation, m.translation); }
// priors and data of the three adapter families
static void setP(ap::AbsoluteAdapterBase& a, const M34& T) { a.sett(T.col(3)); a.setR(T.leftCols<3>()); }
static void setP(rp::RelativeAdapterBase& a, const M34& T) { a.sett12(T.col(3)); a.setR12(T.leftCols<3>()); }
static void setP(point_cloud::PointCloudAdapterBase& a, const M34& T) { a.sett12(T.col(3)); a.setR12(T.leftCols<3>()); }
static M34 getP(const ap::AbsoluteAdapterBase& a) { return pose(a.getR(), a.gett()); }
static M34 getP(const rp::RelativeAdapterBase& a) { return pose(a.getR12(), a.gett12()); }
static M34 getP(const point_cloud::PointCloudAdapterBase& a) { return pose(a.getR12(), a.gett12()); }
static void put(std::vector<double>& v, const V3& x) { for (int k = 0; k < 3; k++) v.push_back(x[k]); }
static void put(std::vector<double>& v, const M3& x) { for (int k = 0; k < 9; k++) v.push_back(x(k)); }
static void dump(const ap::AbsoluteAdapterBase& a, std::vector<double>& v) { for (size_t i = 0; i < a.getNumberCorrespondences(); i++) { put(v, a.getBearingVector(i)); put(v, a.getPoint(i)); put(v, a.getCamOffset(i)); put(v, a.getCamRotation(i)); v.push_back(a.getWeight(i)); } }
static void dump(const rp::RelativeAdapterBase& a, std::vector<double>& v) { for (size_t i = 0; i < a.getNumberCorrespondences(); i++) { put(v, a.getBearingVector1(i)); put(v, a.getBearingVector2(i)); put(v, a.getCamOffset1(i)); put(v, a.getCamOffset2(i)); put(v, a.getCamRotation1(i)); put(v, a.getCamRotation2(i)); v.push_back(a.getWeight(i)); } }
static void dump(const point_cloud::PointCloudAdapterBase& a, std::vector<double>& v) { for (size_t i = 0; i < a.getNumberCorrespondences(); i++) { put(v, a.getPoint1(i)); put(v, a.getPoint2(i)); v.push_back(a.getWeight(i)); } }
template <class P> static void seed(P& p, uint64_t s) { auto e = std::make_shared<std::mt19937_64>(s); p.rng_gen_.reset(new std::function<int()>([e] { return (int)((*e)() >> 33); })); }
struct Keep { bearingVectors_t f1, f2; points_t p, q; Ix c1, c2; translations_t off; rotations_t rot; std::vector<double> w; std::vector<std::shared_ptr<bearingVectors_t>> b1, b2; std::vector<std::shared_ptr<points_t>> mp; };

template <class A, class P> struct Base : Problem {
  std::unique_ptr<Keep> keep; std::unique_ptr<A> ad; std::shared_ptr<P> p; typedef typename P::model_t Model;
  void setPrior(const M34& T) override { setP(*ad, T); } M34 prior() const override { return getP(*ad); }
  void reseed(uint64_t s) override { seed(*p, s); }
  std::vector<double> data() const override { std::vector<double> v; dump(*ad, v); return v; }
};
template <class A, class P> struct Single : Base<A, P> { using Base<A, P>::p; typedef typename P::model_t Model;
  Ix sampleSizes() const override { return Ix(1, p->getSampleSize()); }
  bool hypothesis(const Ix& s, M34& m) const override { Model o; bool ok = p->computeModelCoefficients(s, o); if (ok) m = from(o); return ok; }
  std::vector<double> scores(const M34& m, const Ix& ix) const override { Model o; to(m, o); std::vector<double> s; p->getSelectedDistancesToModel(o, ix, s); return s; }
  std::vector<double> allScores(const M34& m) override { Model o; to(m, o); std::vector<double> s; p->getDistancesToModel(o, s); return s; }
  int count(const M34& m, double t) override { Model o; to(m, o); return p->countWithinDistance(o, t); }
  Ix select(const M34& m, double t) override { Model o; to(m, o); Ix r(3, -1); p->selectWithinDistance(o, t, r); return r; }
  M34 optimise(const Ix& ix, const M34& m) override { Model o, r; to(m, o); p->optimizeModelCoefficients(ix, o, r); return from(r); }
  void setIndices(const Ix& ix) override { p->setIndices(ix); } Ix indices() const override { return *p->getIndices(); }
  Ix draw() override { Ix s; int it = 0; p->getSamples(it, s); return s; }
  template <class E> Result go(E& e) { e.sac_model_ = p; Result r; r.ok = e.computeModel(0); if (r.ok) r.model = from(e.model_coefficients_); r.sample = e.model_; r.inliers = e.inliers_; r.iterations = e.iterations_; return r; }
  Result robust(bool lmeds, int mi, double t, double pr) override { if (lmeds) { sac::Lmeds<P> e(mi, t, pr); return go(e); } sac::Ransac<P> e(mi, t, pr); return go(e); }
};
template <class A, class P> struct Multi : Base<A, P> { using Base<A, P>::p; typedef typename P::model_t Model; using Problem::camOf; using Problem::localOf; using Problem::cams; Ix start;
  void layout(const Ix& counts) { cams = (int)counts.size(); int k = 0; for (int c = 0; c < cams; c++) { start.push_back(k); for (int i = 0; i < counts[c]; i++) { camOf.push_back(c); localOf.push_back(i); k++; } } }
  MIx nest(const Ix& ix) const { MIx m(cams); for (int i : ix) m[camOf[i]].push_back(localOf[i]); return m; }
  Ix flat(const MIx& m) const { Ix o; for (size_t c = 0; c < m.size(); c++) for (int i : m[c]) o.push_back(start[c] + i); return o; }
  Ix sampleSizes() const override { return p->getSampleSizes(); }
  bool hypothesis(const Ix& s, M34& m) const override { Model o; bool ok = p->computeModelCoefficients(nest(s), o); if (ok) m = from(o); return ok; }
  std::vector<double> scores(const M34& m, const Ix& ix) const override { Model o; to(m, o); std::vector<std::vector<double>> s(cams); p->getSelectedDistancesToModel(o, nest(ix), s); std::vector<double> r; std::vector<size_t> at(cams); for (int i : ix) { int c = camOf[i]; r.push_back(at[c] < s[c].size() ? s[c][at[c]] : NAN); at[c]++; } for (int c = 0; c < cams; c++) for (size_t k = at[c]; k < s[c].size(); k++) r.push_back(NAN); return r; }
  std::vector<double> allScores(const M34& m) override { Model o; to(m, o); std::vector<std::vector<double>> s(cams); p->getDistancesToModel(o, s); std::vector<double> r; for (auto& v : s) r.insert(r.end(), v.begin(), v.end()); return r; }
  int count(const M34& m, double t) override { Model o; to(m, o); return p->countWithinDistance(o, t); }
  Ix select(const M34& m, double t) override { Model o; to(m, o); MIx r(2, Ix(2, 1)); p->selectWithinDistance(o, t, r); return flat(r); }
  M34 optimise(const Ix& ix, const M34& m) override { Model o, r; to(m, o); p->optimizeModelCoefficients(nest(ix), o, r); return from(r); }
  void setIndices(const Ix& ix) override { p->setIndices(nest(ix)); } Ix indices() const override { return flat(*p->getIndices()); }
  Ix draw() override { MIx s; int it = 0; p->getSamples(it, s); return flat(s); }
  Result robust(bool, int mi, double t, double pr) override { sac::MultiRansac<P> e(mi, t, pr); e.sac_model_ = p; Result r; r.ok = e.computeModel(0); if (r.ok) r.model = from(e.model_coefficients_); r.sample = flat(e.model_); r.inliers = flat(e.inliers_); r.iterations = e.iterations_; return r; }
};
template <class F> static Ix counts(const Ix& cam, int cams, F each) { Ix n(cams, 0); for (size_t i = 0; i < cam.size(); i++) { n[cam[i]]++; each(i, cam[i]); } return n; }
static rp::RelativeAdapterBase* central(const ProblemData& d, Keep& k, int variant) { k.f1 = d.r.f1; k.f2 = d.r.f2; k.w = d.w; if (k.w.size() != k.f1.size()) k.w.assign(k.f1.size(), 1.0); if (variant == 1) return new rp::CentralRelativeWeightingAdapter(k.f1, k.f2, k.w); return new rp::CentralRelativeAdapter(k.f1, k.f2); }

std::unique_ptr<Problem> makeProblem(int kind, const ProblemData& d, const ProbOpt& o) {
  std::unique_ptr<Keep> K(new Keep); Keep& k = *K; std::unique_ptr<Problem> out; bool R = o.useRestrict; const Ix& rs = o.restrict_;
  if (isAbs(kind) && !isMulti(kind)) {
    typedef sap::AbsolutePoseSacProblem P; typedef Single<ap::AbsoluteAdapterBase, P> S; auto s = new S; out.reset(s); const AbsScene& a = d.a; k.f1 = a.f; k.p = a.p; k.c1 = a.cam; k.off = a.rig.off; k.rot = a.rig.rot;
    if (a.central) s->ad.reset(new ap::CentralAbsoluteAdapter(k.f1, k.p)); else s->ad.reset(new ap::NoncentralAbsoluteAdapter(k.f1, k.c1, k.p, k.off, k.rot)); auto alg = (P::algorithm_t)(kind == TWOPT ? P::TWOPT : kind == KNEIP ? P::KNEIP : kind == GAO ? P::GAO : kind == EPNP ? P::EPNP : P::GP3P);
    s->p.reset(R ? new P(*s->ad, alg, rs, false) : new P(*s->ad, alg, false)); s->keep = std::move(K); s->n = (int)a.n();
  } else if (isAbs(kind)) {
    typedef sap::MultiNoncentralAbsolutePoseSacProblem P; typedef Multi<ap::AbsoluteMultiAdapterBase, P> S; auto s = new S; out.reset(s); const AbsScene& a = d.a; int cams = (int)a.rig.off.size(); k.off = a.rig.off; k.rot = a.rig.rot; for (int c = 0; c < cams; c++) { k.b1.emplace_back(new bearingVectors_t); k.mp.emplace_back(new points_t); }
    s->layout(counts(a.cam, cams, [&](size_t i, int c) { k.b1[c]->push_back(a.f[i]); k.mp[c]->push_back(a.p[i]); })); s->ad.reset(new ap::NoncentralAbsoluteMultiAdapter(k.b1, k.mp, k.off, k.rot)); s->p.reset(R ? new P(*s->ad, s->nest(rs), kind == MABS_C) : new P(*s->ad, kind == MABS_C)); s->keep = std::move(K); s->n = (int)a.n(); s->reseed(12345);
  } else if (kind >= STEWENIUS && kind <= EIGHTPT) {
    typedef srp::CentralRelativePoseSacProblem P; auto s = new Single<rp::RelativeAdapterBase, P>; out.reset(s); s->ad.reset(central(d, k, o.adapterVariant)); auto alg = kind == STEWENIUS ? P::STEWENIUS : kind == NISTER ? P::NISTER : kind == SEVENPT ? P::SEVENPT : P::EIGHTPT; s->p.reset(R ? new P(*s->ad, alg, rs, false) : new P(*s->ad, alg, false)); s->keep = std::move(K); s->n = (int)d.r.n();
  } else if (kind == EIGEN) {
    typedef srp::EigensolverSacProblem P; auto s = new Single<rp::RelativeAdapterBase, P>; out.reset(s); s->ad.reset(central(d, k, o.adapterVariant)); s->p.reset(R ? new P(*s->ad, 10, rs, false) : new P(*s->ad, 10, false)); s->keep = std::move(K); s->n = (int)d.r.n();
  } else if (kind == ROTONLY) {
    typedef srp::RotationOnlySacProblem P; auto s = new Single<rp::RelativeAdapterBase, P>; out.reset(s); s->ad.reset(central(d, k, o.adapterVariant)); s->p.reset(R ? new P(*s->ad, rs, false) : new P(*s->ad, false)); s->keep = std::move(K); s->n = (int)d.r.n();
  } else if (kind == TRANSONLY) {
    typedef srp::TranslationOnlySacProblem P; auto s = new Single<rp::RelativeAdapterBase, P>; out.reset(s); s->ad.reset(central(d, k, o.adapterVariant)); s->p.reset(R ? new P(*s->ad, rs, false) : new P(*s->ad, false)); s->keep = std::move(K); s->n = (int)d.r.n();
  } else if (kind >= NSIX && kind <= NCENT) {
    typedef srp::NoncentralRelativePoseSacProblem P; auto s = new Single<rp::RelativeAdapterBase, P>; out.reset(s); k.f1 = d.r.f1; k.f2 = d.r.f2; k.c1 = d.r.c1; k.c2 = d.r.c2; k.off = d.r.rig.off; k.rot = d.r.rig.rot; s->ad.reset(new rp::NoncentralRelativeAdapter(k.f1, k.f2, k.c1, k.c2, k.off, k.rot)); auto alg = kind == NGE ? P::GE : kind == N17 ? P::SEVENTEENPT : P::SIXPT; bool cent = kind == NCENT;
    s->p.reset(R ? new P(*s->ad, alg, rs, cent, false) : new P(*s->ad, alg, cent, false)); s->keep = std::move(K); s->n = (int)d.r.n();
  } else if (kind >= MSIX && kind <= MCENT) {
    typedef srp::MultiNoncentralRelativePoseSacProblem P; auto s = new Multi<rp::RelativeMultiAdapterBase, P>; out.reset(s); const RelScene& r = d.r; int cams = (int)r.rig.off.size(); k.off = r.rig.off; k.rot = r.rig.rot; for (int c = 0; c < cams; c++) { k.b1.emplace_back(new bearingVectors_t); k.b2.emplace_back(new bearingVectors_t); }
    s->layout(counts(r.c1, cams, [&](size_t i, int c) { k.b1[c]->push_back(r.f1[i]); k.b2[c]->push_back(r.f2[i]); })); s->ad.reset(new rp::NoncentralRelativeMultiAdapter(k.b1, k.b2, k.off, k.rot)); auto alg = kind == MGE ? P::GE : kind == M17 ? P::SEVENTEENPT : P::SIXPT; bool cent = kind == MCENT; s->p.reset(R ? new P(*s->ad, alg, s->nest(rs), cent, false) : new P(*s->ad, alg, cent, false)); s->keep = std::move(K); s->n = (int)r.n();
  } else {
    typedef sac_problems::point_cloud::PointCloudSacProblem P; auto s = new Single<point_cloud::PointCloudAdapterBase, P>; out.reset(s); k.p = d.p1; k.q = d.p2; s->ad.reset(new point_cloud::PointCloudAdapter(k.p, k.q)); s->p.reset(R ? new P(*s->ad, rs, false) : new P(*s->ad, false)); s->keep = std::move(K); s->n = (int)d.p1.size();
  }
  out->kind = kind; if (!isMulti(kind)) { out->camOf.assign(out->n, 0); out->localOf.resize(out->n); std::iota(out->localOf.begin(), out->localOf.end(), 0); }
  return out;
}
static double oneMinusCos(const V3& a, const V3& b) { double h = 0.5 * angleOf(a, b); return 2 * std::sin(h) * std::sin(h); }
double refScore(int kind, const ProblemData& d, const M34& m, int i, double* cond) {
  M3 R = m.leftCols<3>(); V3 t = m.col(3); if (cond) *cond = 1;
  if (isAbs(kind)) return oneMinusCos(d.a.f[i], d.a.dir(i, R, t));
  if (kind == CLOUD) return (d.p1[i] - R * d.p2[i] - t).norm();
  const RelScene& r = d.r; if (kind == ROTONLY) return oneMinusCos(r.f1[i], R * r.f2[i]);
  // both viewing rays in the frame of viewpoint 1, and the middle of their shortest segment
  bool rig = !r.central && kind >= NSIX; V3 o1 = V3::Zero(), o2 = t, d1 = r.f1[i], d2 = R * r.f2[i]; M3 Q1 = M3::Identity(), Q2 = R; if (rig) { Q1 = r.rig.rot[r.c1[i]]; o1 = r.rig.off[r.c1[i]]; d1 = Q1 * r.f1[i]; Q2 = R * r.rig.rot[r.c2[i]]; d2 = Q2 * r.f2[i]; o2 = t + R * r.rig.off[r.c2[i]]; }
  V3 n = d1.cross(d2), b = o2 - o1; double nn = n.squaredNorm(); if (cond) *cond = std::sqrt(nn) * std::min(1.0, b.norm()); double s = b.cross(d2).dot(n) / nn, u = b.cross(d1).dot(n) / nn; V3 X = 0.5 * (o1 + s * d1 + o2 + u * d2);
  return oneMinusCos(d1, X - o1) + oneMinusCos(d2, X - o2);
}
