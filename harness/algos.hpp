// Every algorithm of the library behind one call: data + prior -> list of results
// (implementation: algos.cpp).
#pragma once
#include "problems.hpp"
enum Alg { A_P2P, A_P3K, A_P3G, A_GP3P, A_EPNP, A_GPNP, A_UPNP, A_AOPT, A_TWOPT, A_TWOROT, A_ROT, A_STEW, A_NIST, A_F5K, A_SEVEN, A_EIGHT, A_EIGS, A_SIX, A_GE, A_17, A_ROPT, A_ARUN, A_COPT, A_TRI, A_TRI2, ALGS };
extern const char* algName[ALGS];
inline bool algAbs(int a) { return a <= A_AOPT; }
inline bool algCloud(int a) { return a == A_ARUN || a == A_COPT; }
inline bool algRel(int a) { return !algAbs(a) && !algCloud(a); }
inline bool algRigOnly(int a) { return a == A_SIX || a == A_GE || a == A_17 || a == A_GP3P; }
inline bool algRigToo(int a) { return algRigOnly(a) || a == A_GPNP || a == A_UPNP || a == A_AOPT || a == A_ROPT; }
inline bool algArgs(int a) { return a == A_P2P || a == A_P3K || a == A_P3G || a == A_GP3P || a == A_TWOPT || a == A_TWOROT || a == A_TRI || a == A_TRI2; } // takes single indices
inline bool algAll(int a) { return !algArgs(a) && a != A_F5K; }                    // has an overload without indices
inline bool algRand(int a) { return a == A_GE || a == A_EIGS; }
int algMin(int a); int algMax(int a); // admissible numbers of correspondences
enum How { LIST, ALL, ARGS, LIST_R, ALL_R }; // _R: the overloads of the eigenvalue solvers that return the rotation only
struct AlgData { AbsScene a; RelScene r; points_t p1, p2; std::vector<double> w; M34 prior = M34::Identity(); bool flag = true; /* unrotate, useWeights */ };
// type: P poses (12), R rotations (9), E complex matrices (18), T translation / points (3), X eigensolver output (24), G generalized one (9+4+4+16)
struct Out { char type = 'P'; int per = 12; std::vector<double> v; size_t size() const { return v.size() / per; }
  M34 poseAt(size_t i) const { return Eigen::Map<const M34>(&v[12 * i]); } M3 rotAt(size_t i) const { return Eigen::Map<const M3>(&v[per * i]); } V3 vecAt(size_t i) const { return Eigen::Map<const V3>(&v[3 * i]); }
  Eigen::Matrix3cd essAt(size_t i) const { Eigen::Matrix3cd m; for (int k = 0; k < 9; k++) m(k) = std::complex<double>(v[18 * i + 2 * k], v[18 * i + 2 * k + 1]); return m; } };
// An adapter holding copies of the data; variant 0: central or non-central, 1: with weights (central relative), 2: multi-camera (cameras ascending), 3: raw arrays (cameras not rotated), 4: raw arrays, multi-camera relative (cameras ascending, not rotated)
struct Instance { virtual ~Instance() {} virtual Out run(int alg, int how, const Ix& ix, bool flag) = 0; virtual M34 prior() const = 0; virtual void setPrior(const M34& T) = 0; virtual std::vector<double> data() const = 0; };
std::unique_ptr<Instance> instance(int alg, const AlgData& d, int variant = 0);
AlgData subset(const AlgData& d, const Ix& ix);
inline AlgData jitter(const AlgData& d, Src& s, double e) { AlgData b = d; if (d.a.n()) b.a = jitter(d.a, s, e); if (d.r.n()) b.r = jitter(d.r, s, e); for (size_t i = 0; i < d.p1.size(); i++) { b.p1[i] += rv(s, e); b.p2[i] += rv(s, e); } b.prior.leftCols<3>() = M3(d.prior.leftCols<3>()) * axisAngle(unitVec(s), e); return b; }
inline bool sameBits(const Out& x, const Out& y) { if (x.v.size() != y.v.size()) return false; for (size_t i = 0; i < x.v.size(); i++) if (!(x.v[i] == y.v[i] || (std::isnan(x.v[i]) && std::isnan(y.v[i])))) return false; return true; }
// Generated scenes suited to an algorithm
inline Ix iota(int n) { Ix v(n); std::iota(v.begin(), v.end(), 0); return v; }
struct Case { AlgData d; double noise = 0; int variant = 0; };
inline void addNoise(AlgData& d, Src& s, double e) { if (e <= 0) return; d.a.noise(s, e); if (d.r.n()) d.r.noise(s, e); for (auto& q : d.p1) q += rv(s, e); }
inline bool rig(const Case& c) { return (c.d.a.n() && !c.d.a.central) || (c.d.r.n() && !c.d.r.central); }
inline Case make(Ctx& c, int alg, int n, bool noisy) {
  Src& s = c.s; Case k; AlgData& d = k.d; int cams = algRigOnly(alg) || alg == A_GPNP || (algRigToo(alg) && s.chance(0.5)) ? s.range(2, 5) : 0; if (cams && algRel(alg)) cams = std::max(cams, 3); if (noisy) k.noise = s.logreal(1e-4, 1e-2); d.flag = !s.chance(0.3);
  if (algAbs(alg)) { AbsOpt o; o.n = n; o.cams = cams; o.spread = s.chance(0.5) ? 0.5 : 1.5; o.structured = false; if (alg == A_EPNP || alg == A_GPNP) o.shape = s.range(1, 2); d.a = absScene(c, o); if (cams) { for (auto& q : d.a.cam) q = s.range(0, cams - 1); if (s.chance(0.3)) { k.variant = 2; std::sort(d.a.cam.begin(), d.a.cam.end()); } d.a.measure(); } d.prior = pose(d.a.R * rotUpTo(s, alg == A_AOPT ? 0.05 : 0), d.a.t + rv(s, alg == A_AOPT ? 0.05 : 0)); }
  else { RelOpt o; o.n = n; o.cams = cams; o.spread = s.chance(0.5) ? 0.7 : 2; o.structured = false; o.maxRot = alg == A_EIGS || alg == A_GE || alg == A_ROPT ? 0.4 : 1.5; if (alg == A_GE) { o.maxT = 1; o.shape = 0; } d.r = relScene(c, o); if (alg == A_ROT || alg == A_TWOROT) { d.r.t.setZero(); d.r.measure(); }
    if (cams) { for (auto& q : d.r.c1) q = s.range(0, cams - 1); d.r.c2 = d.r.c1; if (s.chance(0.3)) { k.variant = 2; std::sort(d.r.c1.begin(), d.r.c1.end()); d.r.c2 = d.r.c1; } else if (s.chance(0.5)) for (auto& q : d.r.c2) q = s.range(0, cams - 1); d.r.measure(); } else if (s.chance(0.5)) { k.variant = 1; for (int i = 0; i < n; i++) d.w.push_back(s.from(0.2, 2)); }
    if (algCloud(alg)) { for (auto& x : d.r.X) { d.p1.push_back(x); d.p2.push_back(d.r.R.transpose() * (x - d.r.t)); } } bool opt = alg == A_ROPT || alg == A_COPT || alg == A_EIGS; d.prior = pose(d.r.R * rotUpTo(s, opt ? 0.05 : 0), d.r.t * (opt ? s.from(0.9, 1.1) : 1)); if (algCloud(alg)) d.r = RelScene(); }
  addNoise(d, s, k.noise); c.label(algName[alg]); c.note(std::string(algName[alg]) + (rig(k) ? " rig" : "") + " n=" + std::to_string(n) + " noise=" + std::to_string(k.noise)); return k;
}
inline int drawN(Src& s, int alg) { int lo = algMin(alg), hi = algMax(alg); if (alg == A_UPNP || alg == A_ROT || alg == A_EIGS) lo += s.range(0, 4); return hi == 99 ? lo + (s.chance(0.6) ? s.range(0, 12) : s.chance(0.05) ? s.range(50, 400) : 0) : lo; }
// Degenerate but admissible data: special point configurations, motions and bearings (unit vectors, proper rotations, finite coordinates)
inline V3 oddBearing(Src& s) { static const std::vector<V3> A = {V3(0, 0, 1), V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, -1), V3(-1, 0, 0), V3(0, -1, 0)}; if (s.chance(0.3)) return s.pick(A); if (s.chance(0.3)) { V3 v(s.range(-1, 1), s.range(-1, 1), s.range(-1, 1)); if (v.norm() < 0.5) v = V3(0, 0, 1); return v.normalized(); } return unitVec(s); }
template <class L> void pointShape(L& X, Src& s, int kind) {
  size_t n = X.size(); if (!n) return; V3 o = s.chance(0.5) ? V3(s.range(-3, 3), s.range(-3, 3), s.range(1, 5)) : V3(vecIn(s, 3)), u = s.chance(0.5) ? V3(oddBearing(s)) : unitVec(s), w = s.chance(0.5) ? V3(oddBearing(s)) : unitVec(s);
  for (size_t i = 0; i < n; i++) { switch (kind) { case 0: if (s.chance(0.5)) X[i] = X[s.below(n)]; break; case 1: X[i] = X[0]; break; case 2: X[i] = o + u * s.range(-4, 4); break; case 3: X[i] = o + u * s.from(-3, 3) + w * s.from(-3, 3); break; case 4: X[i] = V3(s.range(-2, 2), s.range(-2, 2), s.range(-2, 2)); break; case 5: X[i] *= 1e8; break; case 6: X[i] *= 1e-8; break; case 7: X[i] = o + u * std::cos(6.283185307179586 * i / n) + w * std::sin(6.283185307179586 * i / n); break; default: break; } } }
inline std::string degenerate(AlgData& d, Src& s) {
  static const char* names[] = {"repeated points", "one point", "collinear", "coplanar", "integer grid", "far", "tiny", "circle", "generic"}; int kind = s.range(0, 8); std::string what = names[kind]; auto fix = [&](opengv::bearingVectors_t& f) { for (auto& b : f) if (!(b.norm() > 0.5)) b = V3(0, 0, 1); };
  pointShape(d.a.p, s, kind); pointShape(d.r.X, s, kind); if (d.p1.size()) { M3 R = anyRot(s); V3 t = vecIn(s, 2); pointShape(d.p1, s, kind); for (size_t i = 0; i < d.p1.size(); i++) d.p2[i] = R.transpose() * (d.p1[i] - t); if (s.chance(0.2)) { pointShape(d.p2, s, s.range(0, 8)); what += ", unrelated clouds"; } }
  int motion = s.range(0, 5); if (motion == 1) { d.a.t.setZero(); d.r.t.setZero(); what += ", no translation"; } if (motion == 2) { d.a.R.setIdentity(); d.r.R.setIdentity(); what += ", no rotation"; } if (motion == 3) { d.a.t.setZero(); d.r.t.setZero(); d.a.R.setIdentity(); d.r.R.setIdentity(); what += ", no motion"; } if (motion == 4) { M3 H; H << 0, -1, 0, 1, 0, 0, 0, 0, 1; d.a.R = d.r.R = H; d.r.t = V3(1, 0, 0); d.a.t = V3(0, 0, -1); what += ", quarter turn"; } if (motion == 5) { d.r.t = oddBearing(s); d.a.t = oddBearing(s); what += ", unit translation"; }
  if (s.chance(0.2)) { for (auto& o : d.a.rig.off) o = s.chance(0.5) ? V3(V3::Zero()) : V3(oddBearing(s)); for (auto& R : d.a.rig.rot) R.setIdentity(); for (auto& o : d.r.rig.off) o = s.chance(0.5) ? V3(V3::Zero()) : V3(oddBearing(s)); for (auto& R : d.r.rig.rot) R.setIdentity(); what += ", special rig"; }
  if (d.a.n()) { d.a.measure(); fix(d.a.f); } if (d.r.n()) { d.r.measure(); fix(d.r.f1); fix(d.r.f2); }
  if (s.chance(0.25)) { for (auto& b : d.a.f) b = oddBearing(s); for (auto& b : d.r.f1) b = oddBearing(s); for (auto& b : d.r.f2) b = oddBearing(s); what += ", unrelated bearings"; }
  else if (s.chance(0.15)) { for (auto& b : d.a.f) b = d.a.f[0]; for (auto& b : d.r.f1) b = d.r.f1[0]; for (auto& b : d.r.f2) b = d.r.f2[0]; what += ", equal bearings"; }
  else if (s.chance(0.15)) { size_t k = d.a.n() ? s.below(d.a.n()) : d.r.n() ? s.below(d.r.n()) : 0; for (size_t i = 0; i < d.a.n(); i++) if (s.chance(0.5)) { d.a.f[i] = d.a.f[k]; d.a.p[i] = d.a.p[k]; } for (size_t i = 0; i < d.r.n(); i++) if (s.chance(0.5)) { d.r.f1[i] = d.r.f1[k]; d.r.f2[i] = d.r.f2[k]; } what += ", repeated correspondences"; }
  if (d.w.size() && s.chance(0.3)) for (auto& w : d.w) w = s.chance(0.5) ? 0 : 1; int pr = s.range(0, 3); if (pr == 1) d.prior = M34::Identity(); if (pr == 2) { M3 R = anyRot(s); if (rotErr(R, M3::Identity()) < 3.0) d.prior = pose(R, vecIn(s, 3)); } return what; }
