#include "algos.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/triangulation/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/absolute_pose/MACentralAbsolute.hpp>
#include <opengv/absolute_pose/MANoncentralAbsolute.hpp>
#include <opengv/relative_pose/MACentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelativeMulti.hpp>
#include <opengv/point_cloud/MAPointCloud.hpp>
using namespace opengv; namespace ap = absolute_pose; namespace rp = relative_pose; namespace pc = point_cloud;
const char* algName[ALGS] = {"p2p", "p3p_kneip", "p3p_gao", "gp3p", "epnp", "gpnp", "upnp", "absolute optimize_nonlinear", "twopt", "twopt_rotationOnly", "rotationOnly", "fivept_stewenius", "fivept_nister", "fivept_kneip", "sevenpt", "eightpt", "eigensolver", "sixpt", "ge", "seventeenpt", "relative optimize_nonlinear", "threept_arun", "point-cloud optimize_nonlinear", "triangulate", "triangulate2"};
int algMin(int a) { static const int m[ALGS] = {2, 3, 3, 3, 6, 6, 3, 6, 2, 2, 3, 5, 5, 5, 7, 8, 5, 6, 6, 17, 6, 3, 6, 1, 1}; return m[a]; }
int algMax(int a) { static const int m[ALGS] = {2, 3, 3, 3, 99, 99, 99, 99, 2, 2, 99, 99, 99, 5, 99, 99, 99, 6, 99, 99, 99, 99, 99, 1, 1}; return m[a]; }
static void put(std::vector<double>& v, const Eigen::Ref<const Eigen::MatrixXd>& x) { for (int j = 0; j < x.cols(); j++) for (int i = 0; i < x.rows(); i++) v.push_back(x(i, j)); }
static Out P(const transformation_t& T) { Out o; put(o.v, T); return o; }
static Out P(const transformations_t& l) { Out o; for (auto& T : l) put(o.v, T); return o; }
static Out R(const rotation_t& T) { Out o; o.type = 'R'; o.per = 9; put(o.v, T); return o; }
static Out R(const rotations_t& l) { Out o; o.type = 'R'; o.per = 9; for (auto& T : l) put(o.v, T); return o; }
static Out T3(const V3& t) { Out o; o.type = 'T'; o.per = 3; put(o.v, t); return o; }
template <class L> static Out E(const L& l) { Out o; o.type = 'E'; o.per = 18; for (auto& m : l) for (int k = 0; k < 9; k++) { std::complex<double> c = m(k); o.v.push_back(c.real()); o.v.push_back(c.imag()); } return o; }
static Out X(const rotation_t& r, const eigensolverOutput_t& e) { Out o; o.type = 'X'; o.per = 24; put(o.v, e.rotation); put(o.v, e.translation); put(o.v, e.eigenvalues); put(o.v, e.eigenvectors); if ((r - e.rotation).norm() > 0) o.v[0] = NAN; return o; }
static Out G(const rotation_t& r, const geOutput_t& e) { Out o; o.type = 'G'; o.per = 33; put(o.v, e.rotation); put(o.v, e.translation); put(o.v, e.eigenvalues); put(o.v, e.eigenvectors); return o; }
static void dump(const ap::AbsoluteAdapterBase& a, std::vector<double>& v) { for (size_t i = 0; i < a.getNumberCorrespondences(); i++) { put(v, a.getBearingVector(i)); put(v, a.getPoint(i)); put(v, a.getCamOffset(i)); put(v, a.getCamRotation(i)); v.push_back(a.getWeight(i)); } }
static void dump(const rp::RelativeAdapterBase& a, std::vector<double>& v) { for (size_t i = 0; i < a.getNumberCorrespondences(); i++) { put(v, a.getBearingVector1(i)); put(v, a.getBearingVector2(i)); put(v, a.getCamOffset1(i)); put(v, a.getCamOffset2(i)); put(v, a.getCamRotation1(i)); put(v, a.getCamRotation2(i)); v.push_back(a.getWeight(i)); } }
template <class L> static void rawCols(std::vector<double>& o, const L& l, const translations_t* off = 0, const Ix* cam = 0) { for (size_t i = 0; i < l.size(); i++) { for (int j = 0; j < 3; j++) o.push_back(l[i][j]); if (off) for (int j = 0; j < 3; j++) o.push_back((*off)[(*cam)[i]][j]); } }
struct AbsI : Instance { AbsScene s; std::vector<std::shared_ptr<bearingVectors_t>> b; std::vector<std::shared_ptr<points_t>> p; std::unique_ptr<ap::AbsoluteAdapterBase> ad;
  std::vector<double> raw, raw2; AbsI(const AlgData& d, int variant) : s(d.a) { if (variant == 3) { rawCols(raw, s.p); rawCols(raw2, s.f, s.central ? 0 : &s.rig.off, &s.cam); if (s.central) ad.reset(new ap::MACentralAbsolute(raw.data(), raw2.data(), (int)s.n(), (int)s.n())); else ad.reset(new ap::MANoncentralAbsolute(raw.data(), raw2.data(), (int)s.n(), (int)s.n())); } else if (s.central) ad.reset(new ap::CentralAbsoluteAdapter(s.f, s.p)); else if (variant != 2) ad.reset(new ap::NoncentralAbsoluteAdapter(s.f, s.cam, s.p, s.rig.off, s.rig.rot)); else { for (size_t c = 0; c < s.rig.off.size(); c++) { b.emplace_back(new bearingVectors_t); p.emplace_back(new points_t); } for (size_t i = 0; i < s.n(); i++) { b[s.cam[i]]->push_back(s.f[i]); p[s.cam[i]]->push_back(s.p[i]); } ad.reset(new ap::NoncentralAbsoluteMultiAdapter(b, p, s.rig.off, s.rig.rot)); } setPrior(d.prior); }
  M34 prior() const override { return pose(ad->getR(), ad->gett()); } void setPrior(const M34& T) override { ad->sett(T.col(3)); ad->setR(T.leftCols<3>()); }
  std::vector<double> data() const override { std::vector<double> v; dump(*ad, v); for (size_t i = 0; i < s.n(); i++) { put(v, s.f[i]); put(v, s.p[i]); if (!s.central) v.push_back(s.cam[i]); } for (auto& o : s.rig.off) put(v, o); for (auto& o : s.rig.rot) put(v, o); for (auto& q : b) for (auto& x : *q) put(v, x); for (auto& q : p) for (auto& x : *q) put(v, x); return v; }
  Out run(int alg, int how, const Ix& ix, bool) override { const ap::AbsoluteAdapterBase& a = *ad; switch (alg) {
    case A_P2P: return T3(how == ARGS ? ap::p2p(a, ix[0], ix[1]) : ap::p2p(a, ix)); case A_P3K: return P(how == ARGS ? ap::p3p_kneip(a, ix[0], ix[1], ix[2]) : ap::p3p_kneip(a, ix)); case A_P3G: return P(how == ARGS ? ap::p3p_gao(a, ix[0], ix[1], ix[2]) : ap::p3p_gao(a, ix)); case A_GP3P: return P(how == ARGS ? ap::gp3p(a, ix[0], ix[1], ix[2]) : ap::gp3p(a, ix));
    case A_EPNP: return P(how == ALL ? ap::epnp(a) : ap::epnp(a, ix)); case A_GPNP: return P(how == ALL ? ap::gpnp(a) : ap::gpnp(a, ix)); case A_UPNP: return P(how == ALL ? ap::upnp(a) : ap::upnp(a, ix)); default: return P(how == ALL ? ap::optimize_nonlinear(a) : ap::optimize_nonlinear(a, ix)); } } };
struct RelI : Instance { RelScene s; std::vector<double> w; std::vector<std::shared_ptr<bearingVectors_t>> b, q; std::unique_ptr<rp::RelativeAdapterBase> ad;
  std::vector<double> raw, raw2; std::vector<std::vector<double>> rb, rq; RelI(const AlgData& d, int variant) : s(d.r), w(d.w) { w.resize(s.n(), 1.0); if (variant == 3) { rawCols(raw, s.f1, s.central ? 0 : &s.rig.off, &s.c1); rawCols(raw2, s.f2, s.central ? 0 : &s.rig.off, &s.c2); if (s.central) ad.reset(new rp::MACentralRelative(raw.data(), raw2.data(), (int)s.n(), (int)s.n())); else ad.reset(new rp::MANoncentralRelative(raw.data(), raw2.data(), (int)s.n(), (int)s.n())); } else if (variant == 4) { size_t k = s.rig.off.size(); rb.resize(k); rq.resize(k); for (size_t i = 0; i < s.n(); i++) for (int j = 0; j < 3; j++) { rb[s.c1[i]].push_back(s.f1[i][j]); rq[s.c1[i]].push_back(s.f2[i][j]); } std::vector<double*> x, y; Ix cnt; for (size_t c = 0; c < k; c++) { x.push_back(rb[c].data()); y.push_back(rq[c].data()); cnt.push_back((int)rb[c].size() / 3); } rawCols(raw, s.rig.off); ad.reset(new rp::MANoncentralRelativeMulti(x, y, raw.data(), cnt)); } else if (s.central && variant == 1) ad.reset(new rp::CentralRelativeWeightingAdapter(s.f1, s.f2, w)); else if (s.central) ad.reset(new rp::CentralRelativeAdapter(s.f1, s.f2)); else if (variant != 2) ad.reset(new rp::NoncentralRelativeAdapter(s.f1, s.f2, s.c1, s.c2, s.rig.off, s.rig.rot)); else { for (size_t c = 0; c < s.rig.off.size(); c++) { b.emplace_back(new bearingVectors_t); q.emplace_back(new bearingVectors_t); } for (size_t i = 0; i < s.n(); i++) { b[s.c1[i]]->push_back(s.f1[i]); q[s.c1[i]]->push_back(s.f2[i]); } ad.reset(new rp::NoncentralRelativeMultiAdapter(b, q, s.rig.off, s.rig.rot)); } setPrior(d.prior); }
  M34 prior() const override { return pose(ad->getR12(), ad->gett12()); } void setPrior(const M34& T) override { ad->sett12(T.col(3)); ad->setR12(T.leftCols<3>()); }
  std::vector<double> data() const override { std::vector<double> v; dump(*ad, v); for (size_t i = 0; i < s.n(); i++) { put(v, s.f1[i]); put(v, s.f2[i]); v.push_back(w[i]); if (!s.central) { v.push_back(s.c1[i]); v.push_back(s.c2[i]); } } for (auto& o : s.rig.off) put(v, o); for (auto& o : s.rig.rot) put(v, o); for (auto& x : b) for (auto& y : *x) put(v, y); for (auto& x : q) for (auto& y : *x) put(v, y); return v; }
  Out run(int alg, int how, const Ix& ix, bool flag) override { const rp::RelativeAdapterBase& a = *ad; switch (alg) {
    case A_TWOPT: return T3(how == ARGS ? rp::twopt(a, flag, ix[0], ix[1]) : rp::twopt(a, flag, ix)); case A_TWOROT: return R(how == ARGS ? rp::twopt_rotationOnly(a, ix[0], ix[1]) : rp::twopt_rotationOnly(a, ix)); case A_ROT: return R(how == ALL ? rp::rotationOnly(a) : rp::rotationOnly(a, ix));
    case A_STEW: return E(how == ALL ? rp::fivept_stewenius(a) : rp::fivept_stewenius(a, ix)); case A_NIST: return E(how == ALL ? rp::fivept_nister(a) : rp::fivept_nister(a, ix)); case A_F5K: return R(rp::fivept_kneip(a, ix)); case A_SEVEN: return E(how == ALL ? rp::sevenpt(a) : rp::sevenpt(a, ix)); case A_EIGHT: { essentials_t l; l.push_back(how == ALL ? rp::eightpt(a) : rp::eightpt(a, ix)); return E(l); }
    case A_EIGS: { if (how == LIST_R) return R(rp::eigensolver(a, ix, flag)); if (how == ALL_R) return R(rp::eigensolver(a, flag)); eigensolverOutput_t o; o.rotation = a.getR12(); rotation_t r = how == ALL ? rp::eigensolver(a, o, flag) : rp::eigensolver(a, ix, o, flag); return X(r, o); } case A_SIX: return R(how == ALL ? rp::sixpt(a) : rp::sixpt(a, ix)); case A_GE: { if (how == LIST_R) return R(rp::ge(a, ix, flag)); if (how == ALL_R) return R(rp::ge(a, flag)); geOutput_t o; rotation_t r = how == ALL ? rp::ge(a, o, flag) : rp::ge(a, ix, o, flag); return G(r, o); } case A_17: return P(how == ALL ? rp::seventeenpt(a) : rp::seventeenpt(a, ix));
    case A_ROPT: return P(how == ALL ? rp::optimize_nonlinear(*ad) : rp::optimize_nonlinear(*ad, ix)); case A_TRI: return T3(triangulation::triangulate(a, ix[0])); default: return T3(triangulation::triangulate2(a, ix[0])); } } };
struct CloudI : Instance { points_t p, q; std::unique_ptr<pc::PointCloudAdapterBase> ad;
  std::vector<double> raw, raw2; CloudI(const AlgData& d, int variant) : p(d.p1), q(d.p2) { if (variant == 3) { rawCols(raw, p); rawCols(raw2, q); ad.reset(new pc::MAPointCloud(raw.data(), raw2.data(), (int)p.size(), (int)q.size())); } else ad.reset(new pc::PointCloudAdapter(p, q)); setPrior(d.prior); }
  M34 prior() const override { return pose(ad->getR12(), ad->gett12()); } void setPrior(const M34& T) override { ad->sett12(T.col(3)); ad->setR12(T.leftCols<3>()); }
  std::vector<double> data() const override { std::vector<double> v; for (size_t i = 0; i < p.size(); i++) { put(v, p[i]); put(v, q[i]); put(v, ad->getPoint1(i)); put(v, ad->getPoint2(i)); v.push_back(ad->getWeight(i)); } return v; }
  Out run(int alg, int how, const Ix& ix, bool) override { if (alg == A_ARUN) return P(how == ALL ? pc::threept_arun(*ad) : pc::threept_arun(*ad, ix)); return P(how == ALL ? pc::optimize_nonlinear(*ad) : pc::optimize_nonlinear(*ad, ix)); } };
std::unique_ptr<Instance> instance(int alg, const AlgData& d, int variant) { if (algAbs(alg)) return std::unique_ptr<Instance>(new AbsI(d, variant)); if (algRel(alg)) return std::unique_ptr<Instance>(new RelI(d, variant)); return std::unique_ptr<Instance>(new CloudI(d, variant)); }
AlgData subset(const AlgData& d, const Ix& ix) {
  AlgData b = d; AbsScene& a = b.a; RelScene& r = b.r; a.p.clear(); a.f.clear(); a.cam.clear(); r.X.clear(); r.f1.clear(); r.f2.clear(); r.c1.clear(); r.c2.clear(); b.p1.clear(); b.p2.clear(); b.w.clear();
  for (int i : ix) { if (d.a.n()) { a.p.push_back(d.a.p[i]); a.f.push_back(d.a.f[i]); if (!a.central) a.cam.push_back(d.a.cam[i]); } if (d.r.n()) { r.X.push_back(d.r.X[i]); r.f1.push_back(d.r.f1[i]); r.f2.push_back(d.r.f2[i]); if (!r.central) { r.c1.push_back(d.r.c1[i]); r.c2.push_back(d.r.c2[i]); } } if (d.p1.size()) { b.p1.push_back(d.p1[i]); b.p2.push_back(d.p2[i]); } if (d.w.size()) b.w.push_back(d.w[i]); }
  return b;
}
