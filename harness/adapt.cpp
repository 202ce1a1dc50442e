#include "geo.hpp"
#include <memory>
#include <opengv/Indices.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/absolute_pose/MACentralAbsolute.hpp>
#include <opengv/absolute_pose/MANoncentralAbsolute.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/MACentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelativeMulti.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/point_cloud/MAPointCloud.hpp>
using namespace opengv; namespace ap = opengv::absolute_pose; namespace rp = opengv::relative_pose; namespace pc = opengv::point_cloud;
const char* pbt::RULE = "adapters of every type and constructor over random data with 0-12 correspondences per camera (empty first, middle and last cameras included), 1-6 cameras, histories of up to 12 prior updates and reads in random order. Non-trivial: at least two correspondences";

typedef std::shared_ptr<bearingVectors_t> BV; typedef std::shared_ptr<points_t> PT;
static V3 any(Src& s) { return vecIn(s, 4); }
static std::vector<double> flat(const std::vector<V3, Eigen::aligned_allocator<V3>>& a, const std::vector<V3, Eigen::aligned_allocator<V3>>* b = nullptr) { std::vector<double> r; for (size_t i = 0; i < a.size(); i++) { for (int k = 0; k < 3; k++) r.push_back(a[i][k]); if (b) for (int k = 0; k < 3; k++) r.push_back((*b)[i][k]); } r.push_back(-777); return r; }
typedef std::vector<V3, Eigen::aligned_allocator<V3>> Vs; typedef std::vector<M3, Eigen::aligned_allocator<M3>> Ms;
struct Want { Vs f1, f2, o1, o2; Ms r1, r2; std::vector<double> w; M3 R = M3::Identity(); V3 t = V3::Zero(); size_t n() const { return f1.size(); } };

// reads in random order, interleaved with prior updates; every read must equal the model
template <class GET, class PRI, class SETT, class SETR> static void history(Ctx& c, Want& w, GET get, PRI pri, SETT sett, SETR setr, size_t n) {
  Src& s = c.s; pri(); int steps = s.range(3, 12); for (int k = 0; k < steps; k++) { int op = s.range(0, 5); if (op == 0) { w.t = any(s); sett(w.t); } else if (op == 1) { w.R = anyRot(s); setr(w.R); } else if (op == 2) pri(); else if (n) get(s.below(n)); if (op < 2 && s.chance(0.5)) pri(); }
  for (size_t i = 0; i < n; i++) get(i); pri(); 
}
static void checkAbs(Ctx& c, ap::AbsoluteAdapterBase& a, Want& w) {
  c.nontrivial(w.n() >= 2); c.require(a.getNumberCorrespondences() == w.n(), "number of correspondences", a.getNumberCorrespondences(), " for ", w.n());
  history(c, w, [&](size_t i) { c.require(a.getBearingVector(i) == w.f1[i], "bearing vector", i); c.require(a.getPoint(i) == w.f2[i], "point", i); c.require(a.getCamOffset(i) == w.o1[i], "camera offset", i); c.require(a.getCamRotation(i) == w.r1[i], "camera rotation", i); c.require(a.getWeight(i) == w.w[i], "weight", i); },
          [&] { c.require(a.gett() == w.t, "prior translation", str(a.gett()), " expected ", str(w.t)); c.require(a.getR() == w.R, "prior rotation", str(a.getR())); }, [&](const V3& t) { a.sett(t); }, [&](const M3& R) { a.setR(R); }, w.n());
}
static void checkRel(Ctx& c, rp::RelativeAdapterBase& a, Want& w) {
  c.nontrivial(w.n() >= 2); c.require(a.getNumberCorrespondences() == w.n(), "number of correspondences", a.getNumberCorrespondences(), " for ", w.n());
  history(c, w, [&](size_t i) { c.require(a.getBearingVector1(i) == w.f1[i], "bearing vector 1", i); c.require(a.getBearingVector2(i) == w.f2[i], "bearing vector 2", i); c.require(a.getCamOffset1(i) == w.o1[i], "camera offset 1", i); c.require(a.getCamOffset2(i) == w.o2[i], "camera offset 2", i); c.require(a.getCamRotation1(i) == w.r1[i], "camera rotation 1", i); c.require(a.getCamRotation2(i) == w.r2[i], "camera rotation 2", i); c.require(a.getWeight(i) == w.w[i], "weight", i); },
          [&] { c.require(a.gett12() == w.t, "prior translation", str(a.gett12()), " expected ", str(w.t)); c.require(a.getR12() == w.R, "prior rotation", str(a.getR12())); }, [&](const V3& t) { a.sett12(t); }, [&](const M3& R) { a.setR12(R); }, w.n());
}
static Want gen(Ctx& c, int n, int cams, std::vector<int>& c1, std::vector<int>& c2, Vs& off, Ms& rot) {
  Src& s = c.s; Want w; off.clear(); rot.clear(); for (int k = 0; k < cams; k++) { off.push_back(any(s)); rot.push_back(anyRot(s)); }
  for (int i = 0; i < n; i++) { w.f1.push_back(any(s)); w.f2.push_back(any(s)); w.w.push_back(1); int a = cams ? s.range(0, cams - 1) : 0, b = cams ? s.range(0, cams - 1) : 0; c1.push_back(a); c2.push_back(b); w.o1.push_back(cams ? off[a] : V3(V3::Zero())); w.o2.push_back(cams ? off[b] : V3(V3::Zero())); w.r1.push_back(cams ? rot[a] : M3(M3::Identity())); w.r2.push_back(cams ? rot[b] : M3(M3::Identity())); }
  return w;
}
static void prior(Src& s, Want& w, int ctor) { if (ctor >= 1) w.R = anyRot(s); if (ctor == 2) w.t = any(s); }

TEST("absolute adapters", 250000, 4000000, [](Ctx& c) {
  Src& s = c.s; int kind = s.range(0, 3), ctor = s.range(0, 2); std::vector<int> c1, c2; Vs off; Ms rot; Want w = gen(c, s.range(0, 10), kind == 1 || kind == 3 ? s.range(1, 5) : 0, c1, c2, off, rot); if (kind < 2) prior(s, w, ctor); std::unique_ptr<ap::AbsoluteAdapterBase> a; std::vector<double> x, y; c.label(kind == 0 ? "CentralAbsoluteAdapter" : kind == 1 ? "NoncentralAbsoluteAdapter" : kind == 2 ? "MACentralAbsolute" : "MANoncentralAbsolute");
  if (kind == 0) a.reset(ctor == 0 ? new ap::CentralAbsoluteAdapter(w.f1, w.f2) : ctor == 1 ? new ap::CentralAbsoluteAdapter(w.f1, w.f2, w.R) : new ap::CentralAbsoluteAdapter(w.f1, w.f2, w.t, w.R));
  else if (kind == 1) a.reset(ctor == 0 ? new ap::NoncentralAbsoluteAdapter(w.f1, c1, w.f2, off, rot) : ctor == 1 ? new ap::NoncentralAbsoluteAdapter(w.f1, c1, w.f2, off, rot, w.R) : new ap::NoncentralAbsoluteAdapter(w.f1, c1, w.f2, off, rot, w.t, w.R));
  else if (kind == 2) { x = flat(w.f2); y = flat(w.f1); a.reset(new ap::MACentralAbsolute(x.data(), y.data(), w.n(), w.n())); }
  else { for (auto& o : w.o1) o = any(s); for (auto& r : w.r1) r = M3::Identity(); x = flat(w.f2); y = flat(w.f1, &w.o1); a.reset(new ap::MANoncentralAbsolute(x.data(), y.data(), w.n(), w.n())); }
  Want w0 = w; checkAbs(c, *a, w); c.require(w0.f1 == w.f1 && w0.f2 == w.f2, "data changed", "");
});
TEST("relative adapters", 250000, 4000000, [](Ctx& c) {
  Src& s = c.s; int kind = s.range(0, 4), ctor = s.range(0, 2); std::vector<int> c1, c2; Vs off; Ms rot; Want w = gen(c, s.range(0, 10), kind == 2 ? s.range(1, 5) : 0, c1, c2, off, rot); if (kind < 3) prior(s, w, ctor); std::unique_ptr<rp::RelativeAdapterBase> a; std::vector<double> x, y; const char* nm[] = {"CentralRelativeAdapter", "CentralRelativeWeightingAdapter", "NoncentralRelativeAdapter", "MACentralRelative", "MANoncentralRelative"}; c.label(nm[kind]);
  if (kind == 0) a.reset(ctor == 0 ? new rp::CentralRelativeAdapter(w.f1, w.f2) : ctor == 1 ? new rp::CentralRelativeAdapter(w.f1, w.f2, w.R) : new rp::CentralRelativeAdapter(w.f1, w.f2, w.t, w.R));
  else if (kind == 1) { for (auto& v : w.w) v = s.from(0, 1); a.reset(ctor == 0 ? new rp::CentralRelativeWeightingAdapter(w.f1, w.f2, w.w) : ctor == 1 ? new rp::CentralRelativeWeightingAdapter(w.f1, w.f2, w.w, w.R) : new rp::CentralRelativeWeightingAdapter(w.f1, w.f2, w.w, w.t, w.R)); }
  else if (kind == 2) a.reset(ctor == 0 ? new rp::NoncentralRelativeAdapter(w.f1, w.f2, c1, c2, off, rot) : ctor == 1 ? new rp::NoncentralRelativeAdapter(w.f1, w.f2, c1, c2, off, rot, w.R) : new rp::NoncentralRelativeAdapter(w.f1, w.f2, c1, c2, off, rot, w.t, w.R));
  else if (kind == 3) { x = flat(w.f1); y = flat(w.f2); a.reset(new rp::MACentralRelative(x.data(), y.data(), w.n(), w.n())); }
  else { for (auto& o : w.o1) o = any(s); for (auto& o : w.o2) o = any(s); x = flat(w.f1, &w.o1); y = flat(w.f2, &w.o2); a.reset(new rp::MANoncentralRelative(x.data(), y.data(), w.n(), w.n())); }
  checkRel(c, *a, w);
});
TEST("point cloud adapters", 150000, 4000000, [](Ctx& c) {
  Src& s = c.s; int kind = s.range(0, 1), ctor = s.range(0, 2); std::vector<int> c1, c2; Vs off; Ms rot; Want w = gen(c, s.range(0, 10), 0, c1, c2, off, rot); if (kind == 0) prior(s, w, ctor); std::unique_ptr<pc::PointCloudAdapterBase> a; std::vector<double> x = flat(w.f1), y = flat(w.f2); c.label(kind ? "MAPointCloud" : "PointCloudAdapter");
  if (kind == 0) a.reset(ctor == 0 ? new pc::PointCloudAdapter(w.f1, w.f2) : ctor == 1 ? new pc::PointCloudAdapter(w.f1, w.f2, w.R) : new pc::PointCloudAdapter(w.f1, w.f2, w.t, w.R)); else a.reset(new pc::MAPointCloud(x.data(), y.data(), w.n(), w.n()));
  c.nontrivial(w.n() >= 2); c.require(a->getNumberCorrespondences() == w.n(), "number of correspondences", "");
  history(c, w, [&](size_t i) { c.require(a->getPoint1(i) == w.f1[i], "point 1", i); c.require(a->getPoint2(i) == w.f2[i], "point 2", i); c.require(a->getWeight(i) == 1.0, "weight", i); }, [&] { c.require(a->gett12() == w.t, "prior translation", ""); c.require(a->getR12() == w.R, "prior rotation", ""); }, [&](const V3& t) { a->sett12(t); }, [&](const M3& R) { a->setR12(R); }, w.n());
});
// --- multi-camera adapters ------------------------------------------------------------------
struct Multi { std::vector<BV> b1, b2; std::vector<PT> p; std::vector<std::vector<double>> x, y; std::vector<double*> px, py; std::vector<int> num; Vs off; Ms rot; std::vector<double> offs; Want w; std::vector<int> cam, loc; };
static Multi genMulti(Ctx& c, bool id, bool zero) {
  Src& s = c.s; Multi m; int cams = s.range(1, 6); bool same = s.chance(0.2); int n0 = s.range(0, 6); for (int k = 0; k < cams; k++) {
    int n = same ? n0 : s.chance(0.3) ? 0 : s.range(0, 12); m.b1.push_back(BV(new bearingVectors_t)); m.b2.push_back(BV(new bearingVectors_t)); m.p.push_back(PT(new points_t)); m.off.push_back(zero ? V3(V3::Zero()) : any(s)); m.rot.push_back(id ? M3(M3::Identity()) : anyRot(s)); m.num.push_back(n); c.label(n ? "filled camera" : "empty camera");
    for (int i = 0; i < n; i++) { V3 u = any(s), v = any(s); m.b1[k]->push_back(u); m.b2[k]->push_back(v); m.p[k]->push_back(v); m.w.f1.push_back(u); m.w.f2.push_back(v); m.w.w.push_back(1); m.w.o1.push_back(m.off[k]); m.w.o2.push_back(m.off[k]); m.w.r1.push_back(m.rot[k]); m.w.r2.push_back(m.rot[k]); m.cam.push_back(k); m.loc.push_back(i); }
    m.x.push_back(flat(*m.b1[k])); m.y.push_back(flat(*m.b2[k])); }
  for (auto& v : m.x) m.px.push_back(v.data()); for (auto& v : m.y) m.py.push_back(v.data()); m.offs = flat(m.off); return m;
}
template <class A, class FR> static void bijection(Ctx& c, const A& a, const Multi& m, FR frame) {
  Src& s = c.s; size_t id = 0; for (size_t k = 0; k < m.num.size(); k++) for (int i = 0; i < m.num[k]; i++, id++) c.require(a.convertMultiIndex(k, i) == (int)id, "serialised index", "camera ", k, " correspondence ", i, " -> ", a.convertMultiIndex(k, i), " expected ", id);
  for (size_t i = 0; i < m.cam.size(); i++) { c.require(frame(i) == m.cam[i], "camera of index", i, " -> ", frame(i)); c.require(a.multiCorrespondenceIndex(i) == m.loc[i], "correspondence of index", i, " -> ", a.multiCorrespondenceIndex(i)); }
  // arbitrary nested lists, in their order
  std::vector<std::vector<int>> q(m.num.size()); std::vector<int> want; for (size_t k = 0; k < q.size(); k++) { int r = m.num[k] ? s.range(0, 5) : 0; int base = 0; for (size_t j = 0; j < k; j++) base += m.num[j]; for (int z = 0; z < r; z++) { q[k].push_back(s.range(0, m.num[k] - 1)); want.push_back(base + q[k].back()); } } auto got = a.convertMultiIndices(q); c.require(got == want, "converted list", "");
}
TEST("multi absolute adapter", 150000, 4000000, [](Ctx& c) {
  Multi m = genMulti(c, false, false); ap::NoncentralAbsoluteMultiAdapter a(m.b1, m.p, m.off, m.rot); c.require(a.getNumberFrames() == m.num.size(), "number of cameras", a.getNumberFrames());
  for (size_t k = 0; k < m.num.size(); k++) { c.require((int)a.getNumberCorrespondences(k) == m.num[k], "correspondences of camera", k); c.require(a.getMultiCamOffset(k) == m.off[k] && a.getMultiCamRotation(k) == m.rot[k], "camera geometry", k); for (int i = 0; i < m.num[k]; i++) { c.require(a.getBearingVector(k, i) == (*m.b1[k])[i], "multi bearing", k, " ", i); c.require(a.getPoint(k, i) == (*m.p[k])[i], "multi point", k, " ", i); c.require(a.getWeight(k, i) == 1.0, "multi weight", ""); } }
  bijection(c, a, m, [&](size_t i) { return a.multiFrameIndex(i); }); checkAbs(c, a, m.w);
});
template <class A> static void multiRel(Ctx& c, A& a, Multi& m) {
  c.require(a.getNumberPairs() == m.num.size(), "number of camera pairs", a.getNumberPairs());
  for (size_t k = 0; k < m.num.size(); k++) { c.require((int)a.getNumberCorrespondences(k) == m.num[k], "correspondences of camera", k); c.require(a.getCamOffset(k) == m.off[k] && a.getCamRotation(k) == m.rot[k], "camera geometry", k); for (int i = 0; i < m.num[k]; i++) { c.require(a.getBearingVector1(k, i) == (*m.b1[k])[i], "multi bearing 1", k, " ", i); c.require(a.getBearingVector2(k, i) == (*m.b2[k])[i], "multi bearing 2", k, " ", i); c.require(a.getWeight(k, i) == 1.0, "multi weight", ""); } }
  bijection(c, a, m, [&](size_t i) { return a.multiPairIndex(i); }); checkRel(c, a, m.w);
}
TEST("multi relative adapters", 250000, 4000000, [](Ctx& c) {
  int kind = c.s.range(0, 2); c.label(kind == 0 ? "NoncentralRelativeMultiAdapter" : kind == 1 ? "CentralRelativeMultiAdapter" : "MANoncentralRelativeMulti"); Multi m = genMulti(c, kind > 0, kind == 1);
  if (kind == 0) { rp::NoncentralRelativeMultiAdapter a(m.b1, m.b2, m.off, m.rot); multiRel(c, a, m); } else if (kind == 1) { rp::CentralRelativeMultiAdapter a(m.b1, m.b2); multiRel(c, a, m); } else { rp::MANoncentralRelativeMulti a(m.px, m.py, m.offs.data(), m.num); multiRel(c, a, m); }
});
TEST("index wrapper", 20000, 300000, [](Ctx& c) {
  Src& s = c.s; int n = s.range(0, 30); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(s.range(0, 1000)); Indices a(v), b((size_t)n); c.nontrivial(n > 1); c.require(a.size() == v.size() && (int)b.size() == n, "size", ""); for (int i = 0; i < n; i++) { c.require(a[i] == v[i], "listed index", i); c.require(b[i] == i, "running index", i); }
});
