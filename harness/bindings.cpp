#include "scene.hpp"
#include <bits/stdc++.h>
#include <ctime>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/triangulation/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/MACentralAbsolute.hpp>
#include <opengv/absolute_pose/MANoncentralAbsolute.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/MACentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelativeMulti.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/point_cloud/MAPointCloud.hpp>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
// (everything else, so that the interface files may include it inside the namespaces below)
#if __has_include(<opengv/Indices.hpp>)
#include <opengv/Indices.hpp>
#endif
#if __has_include(<opengv/OptimizationFunctor.hpp>)
#include <opengv/OptimizationFunctor.hpp>
#endif
#if __has_include(<opengv/absolute_pose/AbsoluteAdapterBase.hpp>)
#include <opengv/absolute_pose/AbsoluteAdapterBase.hpp>
#endif
#if __has_include(<opengv/absolute_pose/AbsoluteMultiAdapterBase.hpp>)
#include <opengv/absolute_pose/AbsoluteMultiAdapterBase.hpp>
#endif
#if __has_include(<opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>)
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#endif
#if __has_include(<opengv/math/Sturm.hpp>)
#include <opengv/math/Sturm.hpp>
#endif
#if __has_include(<opengv/math/arun.hpp>)
#include <opengv/math/arun.hpp>
#endif
#if __has_include(<opengv/math/cayley.hpp>)
#include <opengv/math/cayley.hpp>
#endif
#if __has_include(<opengv/math/gauss_jordan.hpp>)
#include <opengv/math/gauss_jordan.hpp>
#endif
#if __has_include(<opengv/math/quaternion.hpp>)
#include <opengv/math/quaternion.hpp>
#endif
#if __has_include(<opengv/math/roots.hpp>)
#include <opengv/math/roots.hpp>
#endif
#if __has_include(<opengv/point_cloud/PointCloudAdapterBase.hpp>)
#include <opengv/point_cloud/PointCloudAdapterBase.hpp>
#endif
#if __has_include(<opengv/relative_pose/CentralRelativeMultiAdapter.hpp>)
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#endif
#if __has_include(<opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>)
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#endif
#if __has_include(<opengv/relative_pose/RelativeAdapterBase.hpp>)
#include <opengv/relative_pose/RelativeAdapterBase.hpp>
#endif
#if __has_include(<opengv/relative_pose/RelativeMultiAdapterBase.hpp>)
#include <opengv/relative_pose/RelativeMultiAdapterBase.hpp>
#endif
#if __has_include(<opengv/sac/MultiSampleConsensus.hpp>)
#include <opengv/sac/MultiSampleConsensus.hpp>
#endif
#if __has_include(<opengv/sac/MultiSampleConsensusProblem.hpp>)
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
#endif
#if __has_include(<opengv/sac/SampleConsensus.hpp>)
#include <opengv/sac/SampleConsensus.hpp>
#endif
#if __has_include(<opengv/sac/SampleConsensusProblem.hpp>)
#include <opengv/sac/SampleConsensusProblem.hpp>
#endif
#if __has_include(<opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>)
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#endif
#if __has_include(<opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>)
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#endif
#if __has_include(<opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>)
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#endif
#if __has_include(<opengv/types.hpp>)
#include <opengv/types.hpp>
#endif
#include "stubs/mex.h"
#include "stubs/pybind11/pybind11.h"
#include "stubs/pybind11/numpy.h"
// the interface files themselves, compiled against the stand-ins
namespace mex_main {
#include "matlab/opengv.cpp"
}
namespace mex_timing {
#include "matlab/opengv_donotuse.cpp"
}
namespace mex_multi {
#include "matlab/opengv_experimental1.cpp"
}
namespace mex_single {
#include "matlab/opengv_experimental2.cpp"
}
#include "python/pyopengv.cpp"
const char* pbt::RULE = "every method of the MATLAB and Python interfaces on generated correspondences (central or one camera offset per correspondence, noise, outliers for the robust methods) with every call form (all data, 1-based index list, index list and prior translation / rotation / pose, one or two outputs), and malformed calls. Non-trivial: the interface returned a result that was compared with the library's";
using namespace opengv; namespace ap = opengv::absolute_pose; namespace rp = opengv::relative_pose; namespace pc = opengv::point_cloud; namespace sp = opengv::sac_problems;
typedef std::vector<int> Ix; typedef std::vector<double> D;

// The robust methods seed their sampling from the clock. While a comparison runs the clock
// is held still, so that the library called directly draws the same samples.
static bool frozen = false; static time_t frozenAt = 0;
extern "C" time_t time(time_t* p) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); time_t t = frozen ? frozenAt : ts.tv_sec; if (p) *p = t; return t; }
extern "C" clock_t clock(void) noexcept { if (frozen) return 0; struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
struct Freeze { Freeze(unsigned seed) { frozen = true; frozenAt = seed; srand(seed); } ~Freeze() { frozen = false; } };

static void put(D& v, const Eigen::Ref<const Eigen::MatrixXd>& x) { for (int j = 0; j < x.cols(); j++) for (int i = 0; i < x.rows(); i++) v.push_back(x(i, j)); }
template <class T, class A> static void put(D& v, const std::vector<T, A>& l) { for (auto& x : l) put(v, Eigen::Ref<const Eigen::MatrixXd>(Eigen::MatrixXd(x))); }
static D flat(const transformations_t& l) { D v; put(v, l); return v; }
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
static bool same(const D& a, const D& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
static std::string show(const D& v) { std::ostringstream o; o.precision(9); o << v.size() << " values:"; for (size_t i = 0; i < v.size() && i < 24; i++) o << " " << v[i]; return o.str(); }

enum Group { AC, AN, UP, RC, RN, PC };
enum { ONE, SAC }; // deterministic or robust
struct Method { const char* name; Group g; int kind; int min, max; };
static const std::vector<Method> METHODS = {
  {"p2p", AC, ONE, 2, 2}, {"p3p_kneip", AC, ONE, 3, 3}, {"p3p_gao", AC, ONE, 3, 3}, {"epnp", AC, ONE, 6, 20}, {"p3p_kneip_ransac", AC, SAC, 4, 0}, {"p3p_gao_ransac", AC, SAC, 4, 0}, {"epnp_ransac", AC, SAC, 6, 0}, {"abs_nonlin_central", AC, ONE, 6, 20},
  {"gp3p", AN, ONE, 3, 3}, {"gp3p_ransac", AN, SAC, 4, 0}, {"gpnp", AN, ONE, 6, 20}, {"abs_nonlin_noncentral", AN, ONE, 6, 20}, {"upnp", UP, ONE, 3, 20},
  {"twopt", RC, ONE, 2, 2}, {"twopt_rotationOnly", RC, ONE, 2, 2}, {"rotationOnly", RC, ONE, 3, 20}, {"fivept_stewenius", RC, ONE, 5, 10}, {"fivept_nister", RC, ONE, 5, 10}, {"fivept_kneip", RC, ONE, 5, 5}, {"sevenpt", RC, ONE, 7, 12}, {"eightpt", RC, ONE, 8, 20}, {"eigensolver", RC, ONE, 5, 20},
  {"rotationOnly_ransac", RC, SAC, 2, 0}, {"fivept_stewenius_ransac", RC, SAC, 8, 0}, {"fivept_nister_ransac", RC, SAC, 8, 0}, {"sevenpt_ransac", RC, SAC, 9, 0}, {"eightpt_ransac", RC, SAC, 9, 0}, {"eigensolver_ransac", RC, SAC, 10, 0}, {"rel_nonlin_central", RC, ONE, 6, 20},
  {"sixpt", RN, ONE, 6, 6}, {"seventeenpt", RN, ONE, 17, 24}, {"ge", RN, ONE, 6, 20}, {"sixpt_ransac", RN, SAC, 9, 0}, {"seventeenpt_ransac", RN, SAC, 17, 0}, {"ge_ransac", RN, SAC, 8, 0}, {"rel_nonlin_noncentral", RN, ONE, 6, 20},
  {"threept_arun", PC, ONE, 3, 20}, {"threept_arun_ransac", PC, SAC, 3, 0}};

// correspondences: a/b are what the two data arguments describe, oa/ob the camera offsets (one per correspondence)
struct Data { points_t a, b; translations_t oa, ob; bool central = true; M3 R = M3::Identity(); V3 t = V3::Zero(); size_t n() const { return a.size(); } };
static Data gen(Ctx& c, Group g, const std::string& m, int n, double outliers) {
  Src& s = c.s; Data d; bool rig = g == AN || g == RN || (g == UP && s.chance(0.5)); d.central = !rig; double noise = s.chance(0.5) ? 0 : s.logreal(1e-5, 3e-3);
  if (g == AC || g == AN || g == UP) { AbsOpt o; o.n = n; o.cams = rig ? n : 0; o.structured = false; o.shape = s.range(0, 2); AbsScene x = absScene(c, o); for (auto& r : x.rig.rot) r.setIdentity(); x.measure(); if (noise > 0) x.noise(s, noise); for (int i = 0; i < n; i++) if (s.chance(outliers)) x.f[i] = unitVec(s); d.a = x.p; d.b = x.f; d.R = x.R; d.t = x.t; if (rig) for (int i = 0; i < n; i++) d.ob.push_back(x.rig.off[x.cam[i]]); }
  else if (g == PC) { d.R = rotUpTo(s, M_PI); d.t = vecIn(s, 2); for (int i = 0; i < n; i++) { V3 p = vecIn(s, 5); d.a.push_back(p); d.b.push_back(d.R.transpose() * (p - d.t)); if (noise > 0) d.b.back() += rv(s, noise * 10); if (s.chance(outliers)) d.b.back() = vecIn(s, 5); } }
  else { RelOpt o; o.n = n; o.cams = rig ? n : 0; o.structured = false; bool small = m.find("eigensolver") == 0 || m.find("ge") == 0 || m.find("rel_nonlin") == 0; o.maxRot = small ? 0.3 : 1.2; o.spread = s.chance(0.5) ? 0.7 : 2; if (m.find("ge") == 0) { o.maxT = 1; o.shape = 0; } RelScene x = relScene(c, o); for (auto& r : x.rig.rot) r.setIdentity(); if (m.find("otation") != std::string::npos) x.t.setZero(); x.measure(); if (noise > 0) x.noise(s, noise); for (int i = 0; i < n; i++) if (s.chance(outliers)) x.f2[i] = unitVec(s); d.a = x.f1; d.b = x.f2; d.R = x.R; d.t = x.t; if (rig) for (int i = 0; i < n; i++) { d.oa.push_back(x.rig.off[x.c1[i]]); d.ob.push_back(x.rig.off[x.c2[i]]); } }
  return d;
}
// library adapters over the same data
struct Lib { bearingVectors_t f1, f2; points_t p; Ix cam, camB; translations_t off; rotations_t rot; std::unique_ptr<ap::AbsoluteAdapterBase> aa; std::unique_ptr<rp::RelativeAdapterBase> ra; std::unique_ptr<pc::PointCloudAdapterBase> ca;
  Lib(const Data& d, Group g, bool hasR, bool hasT, const M34& prior) {
    if (g == AC || g == AN || g == UP) { p = d.a; f1 = d.b; if (d.central) aa.reset(new ap::CentralAbsoluteAdapter(f1, p)); else { for (size_t i = 0; i < d.n(); i++) { cam.push_back(i); off.push_back(d.ob[i]); rot.push_back(M3::Identity()); } aa.reset(new ap::NoncentralAbsoluteAdapter(f1, cam, p, off, rot)); } if (hasR) aa->setR(prior.leftCols<3>()); if (hasT) aa->sett(prior.col(3)); }
    else if (g == PC) { p = d.a; f1 = d.b; ca.reset(new pc::PointCloudAdapter(p, f1)); if (hasR) ca->setR12(prior.leftCols<3>()); if (hasT) ca->sett12(prior.col(3)); }
    else { f1 = d.a; f2 = d.b; if (d.central) ra.reset(new rp::CentralRelativeAdapter(f1, f2)); else { for (size_t i = 0; i < d.n(); i++) { cam.push_back(2 * i); camB.push_back(2 * i + 1); off.push_back(d.oa[i]); off.push_back(d.ob[i]); rot.push_back(M3::Identity()); rot.push_back(M3::Identity()); } ra.reset(new rp::NoncentralRelativeAdapter(f1, f2, cam, camB, off, rot)); } if (hasR) ra->setR12(prior.leftCols<3>()); if (hasT) ra->sett12(prior.col(3)); }
  } };
struct Res { D x; Ix inliers; bool robust = false, ok = true; std::vector<double> margins; };
template <class P, class F> static Res robust(std::shared_ptr<P> p, double thr, int it, double prob, F model, bool lmeds = false) {
  Res r; r.robust = true; auto run = [&](auto& m) { m.sac_model_ = p; m.threshold_ = thr; m.max_iterations_ = it; if (prob >= 0) m.probability_ = prob; r.ok = m.computeModel(); if (r.ok) { r.inliers = m.inliers_; r.x = model(m.model_coefficients_, m.inliers_); } };
  if (lmeds) { sac::Lmeds<P> m; run(m); } else { sac::Ransac<P> m; run(m); } return r; }
template <class P, class A> static std::shared_ptr<P> problem(A& ad, typename P::algorithm_t alg, const Ix* ix) { return std::shared_ptr<P>(ix ? new P(ad, alg, *ix) : new P(ad, alg)); }
static const double HALFPX = 1.0 - std::cos(std::atan(std::sqrt(2.0) * 0.5 / 800.0)); // half a pixel diagonal at a focal length of 800
// what the library computes for a MATLAB method
static Res direct(const std::string& m, Lib& l, const Ix* ix) {
  Res r; D& v = r.x; auto pose = [](const transformation_t& T, const Ix&) { D q; put(q, T); return q; };
  typedef sp::absolute_pose::AbsolutePoseSacProblem APr; typedef sp::relative_pose::CentralRelativePoseSacProblem CPr; typedef sp::relative_pose::NoncentralRelativePoseSacProblem NPr; typedef sp::relative_pose::RotationOnlySacProblem RPr; typedef sp::relative_pose::EigensolverSacProblem EPr; typedef sp::point_cloud::PointCloudSacProblem PPr;
  if (l.aa) { auto& a = *l.aa;
    if (m == "p2p") put(v, ix ? ap::p2p(a, *ix) : ap::p2p(a)); else if (m == "p3p_kneip") v = flat(ix ? ap::p3p_kneip(a, *ix) : ap::p3p_kneip(a)); else if (m == "p3p_gao") v = flat(ix ? ap::p3p_gao(a, *ix) : ap::p3p_gao(a)); else if (m == "epnp") put(v, ix ? ap::epnp(a, *ix) : ap::epnp(a));
    else if (m == "gp3p") v = flat(ix ? ap::gp3p(a, *ix) : ap::gp3p(a)); else if (m == "gpnp") put(v, ix ? ap::gpnp(a, *ix) : ap::gpnp(a)); else if (m == "upnp") v = flat(ix ? ap::upnp(a, *ix) : ap::upnp(a)); else if (m.find("abs_nonlin") == 0) put(v, ix ? ap::optimize_nonlinear(a, *ix) : ap::optimize_nonlinear(a));
    else if (m == "p3p_kneip_ransac") return robust(problem<APr>(a, APr::KNEIP, ix), HALFPX, 50, -1, pose); else if (m == "p3p_gao_ransac") return robust(problem<APr>(a, APr::GAO, ix), HALFPX, 50, -1, pose); else if (m == "epnp_ransac") return robust(problem<APr>(a, APr::EPNP, ix), HALFPX, 50, -1, pose); else if (m == "gp3p_ransac") return robust(problem<APr>(a, APr::GP3P, ix), HALFPX, 50, -1, pose); else abort(); }
  else if (l.ca) { auto& a = *l.ca; if (m == "threept_arun") put(v, ix ? pc::threept_arun(a, *ix) : pc::threept_arun(a)); else return robust(std::shared_ptr<PPr>(ix ? new PPr(a, *ix) : new PPr(a)), 0.1, 50, -1, pose); }
  else { auto& a = *l.ra;
    if (m == "twopt") put(v, ix ? rp::twopt(a, false, *ix) : rp::twopt(a, false)); else if (m == "twopt_rotationOnly") put(v, ix ? rp::twopt_rotationOnly(a, *ix) : rp::twopt_rotationOnly(a)); else if (m == "rotationOnly") put(v, ix ? rp::rotationOnly(a, *ix) : rp::rotationOnly(a));
    else if (m == "fivept_stewenius") { complexEssentials_t e = ix ? rp::fivept_stewenius(a, *ix) : rp::fivept_stewenius(a); for (auto& x : e) put(v, Eigen::Ref<const Eigen::MatrixXd>(Eigen::MatrixXd(x.real()))); }
    else if (m == "fivept_nister") put(v, ix ? rp::fivept_nister(a, *ix) : rp::fivept_nister(a)); else if (m == "fivept_kneip") put(v, rp::fivept_kneip(a, *ix)); else if (m == "sevenpt") put(v, ix ? rp::sevenpt(a, *ix) : rp::sevenpt(a)); else if (m == "eightpt") put(v, ix ? rp::eightpt(a, *ix) : rp::eightpt(a)); else if (m == "eigensolver") put(v, ix ? rp::eigensolver(a, *ix) : rp::eigensolver(a));
    else if (m == "sixpt") put(v, ix ? rp::sixpt(a, *ix) : rp::sixpt(a)); else if (m == "seventeenpt") put(v, ix ? rp::seventeenpt(a, *ix) : rp::seventeenpt(a)); else if (m == "ge") { geOutput_t o; o.rotation = a.getR12(); rotation_t q = ix ? rp::ge(a, *ix, o) : rp::ge(a, o); put(v, q); } else if (m.find("rel_nonlin") == 0) put(v, ix ? rp::optimize_nonlinear(a, *ix) : rp::optimize_nonlinear(a));
    else if (m == "rotationOnly_ransac") return robust(std::shared_ptr<RPr>(ix ? new RPr(a, *ix) : new RPr(a)), 2 * HALFPX, 50, -1, [](const rotation_t& T, const Ix&) { D q; put(q, T); return q; });
    else if (m == "eigensolver_ransac") return robust(std::shared_ptr<EPr>(ix ? new EPr(a, 10, *ix) : new EPr(a, 10)), 1.0, 50, -1, [](const eigensolverOutput_t& o, const Ix&) { D q; put(q, o.rotation); put(q, o.translation); return q; });
    else if (m == "fivept_stewenius_ransac") { auto p = problem<CPr>(a, CPr::STEWENIUS, ix); return robust(p, 2 * HALFPX, 50, -1, [p](const transformation_t& T, const Ix& in) { transformation_t o; p->optimizeModelCoefficients(in, T, o); D q; put(q, o); return q; }); }
    else if (m == "fivept_nister_ransac") return robust(problem<CPr>(a, CPr::NISTER, ix), 2 * HALFPX, 50, -1, pose); else if (m == "sevenpt_ransac") return robust(problem<CPr>(a, CPr::SEVENPT, ix), 2 * HALFPX, 50, -1, pose); else if (m == "eightpt_ransac") return robust(problem<CPr>(a, CPr::EIGHTPT, ix), 2 * HALFPX, 50, -1, pose);
    else if (m == "sixpt_ransac") return robust(problem<NPr>(a, NPr::SIXPT, ix), 2 * HALFPX, 50, -1, pose); else if (m == "seventeenpt_ransac") return robust(problem<NPr>(a, NPr::SEVENTEENPT, ix), 2 * HALFPX, 50, -1, pose); else if (m == "ge_ransac") return robust(problem<NPr>(a, NPr::GE, ix), 2 * HALFPX, 50, -1, pose); else abort(); }
  return r;
}
// MATLAB values
typedef void (*Mex)(int, mxArray**, int, const mxArray**);
static mxArray mxString(const std::string& s, bool column = false) { mxArray a; a.alloc(mxCHAR_CLASS, {column ? s.size() : 1, column ? 1 : s.size()}); for (size_t i = 0; i < s.size(); i++) ((uint16_t*)a.data())[i] = (unsigned char)s[i]; return a; }
static mxArray mxMat(size_t rows, size_t cols, const D& v) { mxArray a; a.alloc(mxDOUBLE_CLASS, {rows, cols}); for (size_t i = 0; i < v.size() && i < rows * cols; i++) ((double*)a.data())[i] = v[i]; return a; }
static mxArray mxData(const points_t& p, const translations_t& off) { D v; for (size_t i = 0; i < p.size(); i++) { put(v, p[i]); if (off.size()) put(v, off[i]); } return mxMat(off.size() ? 6 : 3, p.size(), v); }
static D values(const mxArray* a) { D v; for (size_t i = 0; i < a->count(); i++) v.push_back(a->cls == mxINT32_CLASS ? (double)((int32_t*)a->data())[i] : ((double*)a->data())[i]); return v; }
struct Call { std::vector<mxArray> in; mxArray* out[3] = {nullptr, nullptr, nullptr}; bool threw = false;
  void run(Ctx& c, Mex f, int nlhs) { std::vector<const mxArray*> p; std::vector<std::vector<unsigned char>> before; for (auto& a : in) { p.push_back(&a); before.push_back(a.mem); } p.push_back(nullptr); mexstub::heap().clear(); mexstub::printed() = 0; try { f(nlhs, out, (int)in.size(), p.data()); } catch (const mexstub::Error&) { threw = true; }
    for (size_t i = 0; i < in.size(); i++) c.require(in[i].mem == before[i], "an argument was modified", "argument ", i); for (auto& a : mexstub::heap()) c.require(a.intact(), "output written beyond its size", a.count(), " values"); } };
static D order(const Ix& ix) { D v; for (int i : ix) v.push_back(i + 1); return v; }

struct Setup { Method m; Data d; int form = 0; Ix ix; M34 prior = M34::Identity(); bool hasR = false, hasT = false; int nlhs = 1; unsigned seed = 1; };
static Setup setup(Ctx& c, const Method& m) {
  Src& s = c.s; Setup u; u.m = m; int n; if (m.kind == SAC) { n = m.min + s.range(8, 20); } else n = s.range(m.min, std::max(m.min, m.max)) ; u.form = s.range(0, 2); int extra = s.chance(0.6) ? s.range(0, 5) : 0; if (u.form == 0 && std::string(m.name) == "sixpt") extra = 0; u.d = gen(c, m.g, m.name, n + extra, m.kind == SAC ? s.from(0, 0.25) : 0);
  if (u.form) u.ix = shuffled(s, n + extra, n);   int pr = u.form == 2 ? s.range(1, 3) : 0; u.hasR = pr & 1; u.hasT = pr & 2; u.prior = pose(u.d.R * rotUpTo(s, 0.05), u.d.t + rv(s, 0.05)); if (u.form == 2) c.label(pr == 1 ? "rotation prior" : pr == 2 ? "translation prior" : "pose prior");
  u.nlhs = m.kind == SAC && s.chance(0.7) ? 2 : 1; u.seed = 1 + s.below(1000000); c.label(m.name); c.note(std::string(m.name) + " n=" + std::to_string(n + extra) + " form " + std::to_string(u.form) + " outputs " + std::to_string(u.nlhs)); return u;
}
static void compare(Ctx& c, const Setup& u, Mex f) {
  std::string name = u.m.name; const Ix* ix = u.form ? &u.ix : nullptr; Call k; k.in.push_back(mxString(name)); if (u.form) k.in.push_back(mxMat(1, u.ix.size(), order(u.ix))); bool rel = u.m.g == RN; k.in.push_back(mxData(u.d.a, rel ? u.d.oa : translations_t())); k.in.push_back(mxData(u.d.b, u.d.ob));
  if (u.form == 2) { D v; if (u.hasR) put(v, u.prior.leftCols<3>()); if (u.hasT) put(v, u.prior.col(3)); k.in.push_back(mxMat(3, v.size() / 3, v)); }
  if (name == "fivept_kneip" && !ix) { Freeze z(u.seed); k.run(c, f, 1); c.require(!k.out[0], "fivept_kneip without indices must not return", ""); return; }
  Res want, again; { Lib l(u.d, u.m.g, u.hasR, u.hasT, u.prior); Freeze z(u.seed); want = direct(name, l, ix); } { Lib l(u.d, u.m.g, u.hasR, u.hasT, u.prior); Freeze z(u.seed); again = direct(name, l, ix); }
  if (!want.ok || want.ok != again.ok || !same(want.x, again.x) || want.inliers != again.inliers) { c.label(want.ok ? "not reproducible" : "no model"); c.discard(); }
  { Freeze z(u.seed); k.run(c, f, u.nlhs); }
  c.require(k.out[0] && k.out[0]->cls == mxDOUBLE_CLASS, "no result: " + name, ""); D got = values(k.out[0]); c.nontrivial();
  c.require(k.out[0]->dims[0] == 3 && (got.empty() || k.out[0]->count() == want.x.size()), "size of the result: " + name, k.out[0]->count(), " values, the library returns ", want.x.size());
  c.require(same(got, want.x), "result differs from the library's: " + name, show(got), "\nlibrary: ", show(want.x)); size_t cols = k.out[0]->dims[1]; static const std::set<std::string> ROT = {"twopt_rotationOnly", "rotationOnly", "fivept_stewenius", "fivept_nister", "fivept_kneip", "sevenpt", "eightpt", "eigensolver", "rotationOnly_ransac", "sixpt", "ge"}; size_t must = name == "p2p" || name == "twopt" ? 1 : ROT.count(name) ? 3 : 4; if (!got.empty()) c.require(cols == must, "shape of the result: " + name, cols, " columns");
  if (u.nlhs == 2) { c.require(k.out[1] && k.out[1]->cls == mxINT32_CLASS && k.out[1]->dims[0] == 1, "inliers: " + name, "missing"); D in = values(k.out[1]); c.require(in == order(want.inliers), "inliers differ from the library's: " + name, show(in), "\nlibrary: ", show(order(want.inliers))); }
  else c.require(!k.out[1], "unrequested output: " + name, "");
}
TEST("matlab: deterministic methods", 20000, 400000, [](Ctx& c) { std::vector<Method> l; for (auto& m : METHODS) if (m.kind == ONE) l.push_back(m); compare(c, setup(c, c.s.pick(l)), mex_main::mexFunction); });
TEST("matlab: robust methods", 6000, 120000, [](Ctx& c) { std::vector<Method> l; for (auto& m : METHODS) if (m.kind == SAC) l.push_back(m); compare(c, setup(c, c.s.pick(l)), mex_main::mexFunction); });
TEST("matlab: timing variant", 2500, 50000, [](Ctx& c) { Method m = c.s.pick(METHODS); std::string n = m.name; if (n == "ge" || n == "ge_ransac" || n == "eigensolver_ransac") c.discard(); compare(c, setup(c, m), mex_timing::mexFunction); });

// malformed calls: nothing is returned, nothing is computed, the caller is told
TEST("matlab: malformed calls", 40000, 800000, [](Ctx& c) {
  Src& s = c.s; Mex f = s.chance(0.8) ? mex_main::mexFunction : mex_timing::mexFunction; const Method& m = s.pick(METHODS); Setup u = setup(c, m); Call k; std::string name = m.name; size_t n = u.d.n(); int nlhs = u.nlhs; bool rel = m.g == RN; int form = u.form; std::string why;
  mxArray a = mxData(u.d.a, rel ? u.d.oa : translations_t()), b = mxData(u.d.b, u.d.ob), ix = mxMat(1, u.ix.size(), order(u.ix)), pr = mxMat(3, 4, D(12, 0.0)); auto mat = [&](size_t r, size_t q) { D v; for (size_t i = 0; i < r * q; i++) v.push_back(s.real(-1, 1)); return mxMat(r, q, v); }; mxArray nm = mxString(name); bool tell = true;
  int bad = s.range(0, 12); switch (bad) {
    case 0: { std::string o = name; int e = s.range(0, 3); if (e == 0) o += s.chance(0.5) ? "x" : " "; else if (e == 1) o = o.substr(0, o.size() - 1); else if (e == 2) { size_t i = s.below(o.size()); o[i] = o[i] == 'z' ? 'q' : o[i] ^ 1; } else o = o.empty() ? "X" : std::string(1, (char)toupper(o[0])) + o.substr(1); for (auto& q : METHODS) if (o == q.name) c.discard(); nm = mxString(o); why = "unknown method " + o; break; }
    case 1: nm = mxString(name, true); why = "method is a column"; break;
    case 2: { size_t r = s.pick(std::vector<size_t>{1, 2, 4, 5, 7}); a = mat(r, n); why = "rows of data1"; break; }
    case 3: { size_t r = s.pick(std::vector<size_t>{1, 2, 4, 5, 7}); b = mat(r, n); why = "rows of data2"; break; }
    case 4: b = mat(b.dims[0], n + s.pick(std::vector<int>{-1, 1, 3})); why = "different numbers of columns"; break;
    case 5: if (m.g == UP) { a = mat(6, n); } else if (m.g == AC || m.g == RC || m.g == PC) { if (s.chance(0.5)) a = mat(6, n); else b = mat(6, n); } else if (m.g == AN) { if (s.chance(0.5)) a = mat(6, n); else b = mat(3, n); } else { if (s.chance(0.5)) a = mat(3, n); else b = mat(3, n); } why = "central data for a noncentral method or vice versa"; break;
    case 6: form = std::max(form, 1); ix = mat(1, n + 1); why = "more indices than correspondences"; break;
    case 7: form = std::max(form, 1); ix = mat(2, 2); why = "two rows of indices"; break;
    case 8: form = 2; { size_t r = s.pick(std::vector<size_t>{1, 2, 4, 6}); pr = s.chance(0.5) ? mat(r, 4) : mat(3, s.pick(std::vector<size_t>{2, 5, 6})); } why = "shape of the prior"; break;
    case 9: nlhs = 0; tell = false; why = "no output requested"; break;
    case 10: nlhs = 3; why = "three outputs"; break;
    case 11: if (m.kind == SAC) c.discard(); nlhs = 2; why = "two outputs from a method that has one"; break;
    default: { why = "number of arguments"; int q = s.range(0, 1); k.in.push_back(nm); k.in.push_back(a); if (q) for (int i = 0; i < 4; i++) k.in.push_back(b); form = -1; break; } }
  if (form == 1 && u.ix.empty() && bad != 6 && bad != 7) form = 0;
  if (form >= 0) { k.in.push_back(nm); if (form) k.in.push_back(form && u.ix.empty() && bad == 8 ? mxMat(1, 1, D(1, 1.0)) : ix); k.in.push_back(a); k.in.push_back(b); if (form == 2) k.in.push_back(pr); }
  if (form == 2 && u.ix.empty() && bad != 8 && bad != 6 && bad != 7) c.discard();
  c.label(why.substr(0, why.find(" method ") == std::string::npos ? std::string::npos : 7)); c.note(why); { Freeze z(u.seed); k.run(c, f, nlhs); } c.nontrivial();
  c.require(!k.out[0] && !k.out[1], "a malformed call returned a result", why, " (", name, ")"); if (tell) c.require(mexstub::printed() > 0, "a malformed call was ignored silently", why, " (", name, ")");
});
// the two experimental entry points
TEST("matlab: experimental interfaces", 150, 6000, [](Ctx& c) {
  Src& s = c.s; bool multi = s.chance(0.5); int alg = s.range(0, 2); int cams = s.range(3, 5); int per = alg == 2 ? 10 : 7; typedef sp::relative_pose::MultiNoncentralRelativePoseSacProblem MP; typedef sp::relative_pose::NoncentralRelativePoseSacProblem NP; unsigned seed = 1 + s.below(1000000);
  RelOpt o; o.n = cams * per; o.cams = cams; o.structured = false; o.maxRot = 0.3; o.maxT = 1; o.minT = 0.2; o.shape = 0; o.spread = 1; RelScene x = relScene(c, o); for (auto& r : x.rig.rot) r.setIdentity(); for (int i = 0; i < o.n; i++) x.c1[i] = x.c2[i] = i / per; x.measure(); if (s.chance(0.5)) x.noise(s, 1e-5); for (int i = 0; i < o.n; i++) if (s.chance(0.08)) x.f2[i] = unitVec(s);
  Call k; D want; bool ok = true; c.label(std::string(multi ? "multi " : "single ") + (alg == 0 ? "sixpt" : alg == 1 ? "ge" : "seventeenpt")); std::vector<int> inl; int its = 0, total = 0; const int CAP = 10000000;
  auto result = [&](const transformation_t& T, int iterations, int inliers) { want.clear(); put(want, T); want.push_back(iterations); want.push_back(inliers); its = iterations; total = inliers; };
  if (multi) { std::vector<std::shared_ptr<bearingVectors_t>> b1, b2; for (int q = 0; q < cams; q++) { b1.emplace_back(new bearingVectors_t(x.f1.begin() + q * per, x.f1.begin() + (q + 1) * per)); b2.emplace_back(new bearingVectors_t(x.f2.begin() + q * per, x.f2.begin() + (q + 1) * per)); k.in.push_back(mxData(*b1[q], translations_t())); } for (int q = 0; q < cams; q++) k.in.push_back(mxData(*b2[q], translations_t())); k.in.push_back(mxData(x.rig.off, translations_t()));
    rp::NoncentralRelativeMultiAdapter ad(b1, b2, x.rig.off, x.rig.rot); Freeze z(seed); std::shared_ptr<MP> p(new MP(ad, alg == 0 ? MP::SIXPT : alg == 1 ? MP::GE : MP::SEVENTEENPT)); sac::MultiRansac<MP> r; r.sac_model_ = p; r.threshold_ = 2 * HALFPX; r.max_iterations_ = 3000; ok = r.computeModel(); int t = 0; for (auto& v : r.inliers_) t += v.size(); if (ok) result(r.model_coefficients_, r.iterations_, t); if (r.iterations_ >= 2999) ok = false; }
  else { Ix c1; translations_t off; rotations_t rot; translations_t oa; for (int i = 0; i < o.n; i++) oa.push_back(x.rig.off[x.c1[i]]); rp::NoncentralRelativeAdapter ad(x.f1, x.f2, x.c1, x.c2, x.rig.off, x.rig.rot); k.in.push_back(mxData(x.f1, oa)); k.in.push_back(mxData(x.f2, oa)); Freeze z(seed); std::shared_ptr<NP> p(new NP(ad, alg == 0 ? NP::SIXPT : alg == 1 ? NP::GE : NP::SEVENTEENPT)); sac::Ransac<NP> r; r.sac_model_ = p; r.threshold_ = 2 * HALFPX; r.max_iterations_ = 3000; ok = r.computeModel(); if (ok) result(r.model_coefficients_, r.iterations_, r.inliers_.size()); if (r.iterations_ >= 2999) ok = false; }
  (void)CAP; if (!ok) { c.label("slow or no model"); c.discard(); } k.in.push_back(mxMat(1, 1, D(1, (double)alg)));
  { Freeze z(seed); k.run(c, multi ? mex_multi::mexFunction : mex_single::mexFunction, 1); } c.require(k.out[0] && k.out[0]->count() == 15, "experimental: no 3x5 result", ""); D got = values(k.out[0]); c.nontrivial(); c.note("iterations " + std::to_string(its) + " inliers " + std::to_string(total)); D g(got.begin(), got.begin() + 14);
  c.require(same(g, want), std::string("experimental result differs from the library's: ") + (multi ? "multi" : "single"), show(g), "\nlibrary: ", show(want));
});

// Python module
namespace pyb = pybind11;
static pyb::module_& mod() { static pyb::module_ m; static bool once = (pybind11_stub_init_pyopengv(m), true); (void)once; return m; }
static pyb::Val arr(const points_t& p) { pyb::array_t<double> a({p.size(), (size_t)3}); for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < 3; k++) a.mutable_at(i, k) = p[i][k]; return pyb::Val(a); }
static pyb::Val arr(const M3& R) { pyb::array_t<double> a({(size_t)3, (size_t)3}); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a.mutable_at(i, j) = R(i, j); return pyb::Val(a); }
static pyb::Val arr(const V3& t) { pyb::array_t<double> a({(size_t)3}); for (int i = 0; i < 3; i++) a.mutable_at(i) = t[i]; return pyb::Val(a); }
struct PyOut { D v; std::vector<size_t> shape; bool isList = false; size_t items = 0; };
static void flatten(const pyb::Store& s, PyOut& o) { if (s.isList) { for (auto& i : s.items) flatten(*i, o); return; } o.shape = s.shape; if (s.shape.size() == 2) { for (size_t j = 0; j < s.shape[1]; j++) for (size_t i = 0; i < s.shape[0]; i++) o.v.push_back(s.d[i * s.shape[1] + j]); } else o.v.insert(o.v.end(), s.d.begin(), s.d.end()); }
struct PyMethod { const char* name; const char* like; Group g; int min, max; int args; /* 0 data only, 1 +R, 2 +t,R */ char out; bool list; };
static const std::vector<PyMethod> PY = {{"absolute_pose_p2p", "p2p", AC, 2, 6, 1, 'T', false}, {"absolute_pose_p3p_kneip", "p3p_kneip", AC, 3, 6, 0, 'P', true}, {"absolute_pose_p3p_gao", "p3p_gao", AC, 3, 6, 0, 'P', true}, {"absolute_pose_gp3p", "gp3p", AC, 3, 6, 0, 'P', true}, {"absolute_pose_epnp", "epnp", AC, 6, 20, 0, 'P', false}, {"absolute_pose_gpnp", "gpnp", AC, 6, 20, 0, 'P', false}, {"absolute_pose_upnp", "upnp", AC, 3, 20, 0, 'P', true}, {"absolute_pose_optimize_nonlinear", "abs_nonlin", AC, 6, 20, 2, 'P', false},
  {"relative_pose_twopt", "twopt", RC, 2, 6, 1, 'T', false}, {"relative_pose_twopt_rotation_only", "twopt_rotationOnly", RC, 2, 6, 0, 'R', false}, {"relative_pose_rotation_only", "rotationOnly", RC, 3, 20, 0, 'R', false}, {"relative_pose_fivept_nister", "fivept_nister", RC, 5, 10, 0, 'R', true}, {"relative_pose_fivept_kneip", "fivept_kneip", RC, 5, 8, 0, 'R', true}, {"relative_pose_sevenpt", "sevenpt", RC, 7, 12, 0, 'R', true}, {"relative_pose_eightpt", "eightpt", RC, 8, 20, 0, 'R', false}, {"relative_pose_eigensolver", "eigensolver", RC, 5, 20, 1, 'R', false}, {"relative_pose_sixpt", "sixpt", RC, 6, 6, 0, 'R', true}, {"relative_pose_optimize_nonlinear", "rel_nonlin", RC, 6, 20, 2, 'P', false},
  {"triangulation_triangulate", "tri", RC, 0, 12, 2, 'X', false}, {"triangulation_triangulate2", "tri2", RC, 0, 12, 2, 'X', false}};
static void pyCompare(Ctx& c, const std::string& name, const PyOut& got, const D& want, char out, bool list, size_t n) {
  size_t per = out == 'P' ? 12 : out == 'R' ? 9 : 3; c.require(got.isList == list, "kind of result: " + name, got.isList ? "list" : "array"); if (list) c.require(got.items == want.size() / per, "number of results: " + name, got.items, " instead of ", want.size() / per);
  if (!want.empty()) { std::vector<size_t> sh = out == 'P' ? std::vector<size_t>{3, 4} : out == 'R' ? std::vector<size_t>{3, 3} : out == 'T' ? std::vector<size_t>{3} : std::vector<size_t>{n, 3}; c.require(got.shape == sh, "shape of the result: " + name, ""); }
  c.require(same(got.v, want), "result differs from the library's: " + name, show(got.v), "\nlibrary: ", show(want)); }
static PyOut pyCall(Ctx& c, const std::string& name, const std::vector<pyb::Val>& v) { std::vector<D> before; for (auto& x : v) before.push_back(x.a.p->d); PyOut o; pyb::object r; try { r = mod()(name, v); } catch (const std::exception& e) { c.fail("exception: " + name, e.what()); } for (size_t i = 0; i < v.size(); i++) c.require(v[i].a.p->d == before[i], "an argument was modified: " + name, "argument ", i); o.isList = r.p->isList; o.items = r.p->items.size(); flatten(*r.p, o); return o; }
TEST("python: deterministic functions", 20000, 400000, [](Ctx& c) {
  Src& s = c.s; const PyMethod& m = s.pick(PY); int n = s.range(std::max(1, m.min), m.max); Data d = gen(c, m.g, m.like, n, 0); M34 prior = pose(d.R * rotUpTo(s, 0.05), d.t + rv(s, 0.05)); unsigned seed = 1 + s.below(1000000); c.label(m.name); std::string like = m.like;
  auto ref = [&] { Lib l(d, m.g, m.args >= 1, m.args == 2, prior); Freeze z(seed); D v; Ix two = {0, 1}, three = {0, 1, 2}, five = {0, 1, 2, 3, 4};
    if (like == "p2p") put(v, ap::p2p(*l.aa, 0, 1)); else if (like == "p3p_kneip") v = flat(ap::p3p_kneip(*l.aa, 0, 1, 2)); else if (like == "p3p_gao") v = flat(ap::p3p_gao(*l.aa, 0, 1, 2)); else if (like == "gp3p") v = flat(ap::gp3p(*l.aa, 0, 1, 2)); else if (like == "twopt") put(v, rp::twopt(*l.ra, true, 0, 1)); else if (like == "twopt_rotationOnly") put(v, rp::twopt_rotationOnly(*l.ra, 0, 1)); else if (like == "fivept_kneip") put(v, rp::fivept_kneip(*l.ra, five));
    else if (m.out == 'X') { points_t p; for (int i = 0; i < n; i++) p.push_back(like == "tri" ? triangulation::triangulate(*l.ra, i) : triangulation::triangulate2(*l.ra, i)); for (int k = 0; k < 3; k++) for (int i = 0; i < n; i++) v.push_back(p[i][k]); } else v = direct(like, l, nullptr).x; return v; };
  D want = ref(), again = ref(); if (!same(want, again)) { c.label("not reproducible"); c.discard(); } std::vector<pyb::Val> a = {arr(m.g == AC ? points_t(d.b) : points_t(d.a)), arr(m.g == AC ? points_t(d.a) : points_t(d.b))}; if (m.args == 2) a.push_back(arr(V3(prior.col(3)))); if (m.args >= 1) a.push_back(arr(M3(prior.leftCols<3>()))); PyOut got; { Freeze z(seed); got = pyCall(c, m.name, a); } c.nontrivial(!want.empty()); pyCompare(c, m.name, got, want, m.out, m.list, n);
});
TEST("python: robust functions", 5000, 100000, [](Ctx& c) {
  Src& s = c.s; int kind = s.range(0, 2); bool lm = s.chance(0.4); Group g = kind == 0 ? AC : RC; static const std::vector<std::string> A = {"TWOPT", "KNEIP", "GAO", "EPNP", "GP3P"}, R = {"STEWENIUS", "NISTER", "SEVENPT", "EIGHTPT"}; std::string alg = kind == 0 ? s.pick(A) : kind == 1 ? s.pick(R) : ""; int n = s.range(12, 28); Data d = gen(c, g, kind == 2 ? "rotationOnly" : "x", n, s.from(0, 0.3)); unsigned seed = 1 + s.below(1000000);
  double thr = s.logreal(1e-7, 1e-2), prob = 0.99; int it = s.chance(0.3) ? 1000 : s.range(1, 60); bool dflt = s.chance(0.3), dfltP = dflt || s.chance(0.3); if (dflt) it = 1000; if (!dfltP) prob = s.pick(std::vector<double>{0.5, 0.9, 0.999}); if (lm && it > 100 && !dflt) it = 100; std::string name = kind == 0 ? (lm ? "absolute_pose_lmeds" : "absolute_pose_ransac") : kind == 1 ? (lm ? "relative_pose_lmeds" : "relative_pose_ransac") : (lm ? "relative_pose_lmeds_rotation_only" : "relative_pose_ransac_rotation_only"); c.label(name + " " + alg);
  typedef sp::absolute_pose::AbsolutePoseSacProblem APr; typedef sp::relative_pose::CentralRelativePoseSacProblem CPr; typedef sp::relative_pose::RotationOnlySacProblem RPr; auto pose = [](const transformation_t& T, const Ix&) { D q; put(q, T); return q; };
  auto ref = [&] { Lib l(d, g, false, false, M34::Identity()); Freeze z(seed); if (kind == 0) return robust(std::shared_ptr<APr>(new APr(*l.aa, alg == "TWOPT" ? APr::TWOPT : alg == "GAO" ? APr::GAO : alg == "EPNP" ? APr::EPNP : alg == "GP3P" ? APr::GP3P : APr::KNEIP)), thr, it, prob, pose, lm); if (kind == 1) return robust(std::shared_ptr<CPr>(new CPr(*l.ra, alg == "STEWENIUS" ? CPr::STEWENIUS : alg == "SEVENPT" ? CPr::SEVENPT : alg == "EIGHTPT" ? CPr::EIGHTPT : CPr::NISTER)), thr, it, prob, pose, lm);
    return robust(std::shared_ptr<RPr>(new RPr(*l.ra)), thr, it, prob, [](const rotation_t& T, const Ix&) { D q; put(q, T); return q; }, lm); };
  Res want = ref(), again = ref(); if (!want.ok || !same(want.x, again.x)) { c.label(want.ok ? "not reproducible" : "no model"); c.discard(); } std::vector<pyb::Val> a = {arr(kind == 0 ? points_t(d.b) : points_t(d.a)), arr(kind == 0 ? points_t(d.a) : points_t(d.b))}; if (kind < 2) a.push_back(pyb::Val(alg)); a.push_back(thr); if (!dflt) { a.push_back(it); if (!dfltP) a.push_back(prob); } PyOut got; { Freeze z(seed); got = pyCall(c, name, a); } c.nontrivial(); pyCompare(c, name, got, want.x, kind == 2 ? 'R' : 'P', false, 0);
});
