// All sample-consensus problems of the library behind one interface with serialised
// correspondence indices and 3x4 models (implementation: problems.cpp).
#pragma once
#include "scene.hpp"
#include <memory>
typedef std::vector<int> Ix; typedef std::vector<Ix> MIx;
enum Kind { TWOPT, KNEIP, GAO, EPNP, GP3P, MABS, MABS_C, STEWENIUS, NISTER, SEVENPT, EIGHTPT, EIGEN, ROTONLY, TRANSONLY, NSIX, NGE, N17, NCENT, MSIX, MGE, M17, MCENT, CLOUD, KINDS };
extern const char* kindName[KINDS];
inline bool isAbs(int k) { return k <= MABS_C; }
inline bool isMulti(int k) { return k == MABS || k == MABS_C || (k >= MSIX && k <= MCENT); }
inline bool isRig(int k) { return k == GP3P || k == MABS || (k >= NSIX && k <= N17) || (k >= MSIX && k <= M17); } // needs several cameras
inline bool isShift(int k) { return k == TWOPT || k == KNEIP || k == GAO || k == EPNP || k == MABS_C || k == NCENT || k == MCENT; } // one camera, possibly shifted
inline bool scaleFree(int k) { return (k >= STEWENIUS && k <= TRANSONLY) || k == NCENT || k == MCENT; } // translation without scale
struct Result { bool ok; M34 model; Ix sample, inliers; int iterations; };
struct Problem {
  int kind; Ix camOf, localOf; int cams = 1; int n = 0;
  virtual ~Problem() {}
  virtual Ix sampleSizes() const = 0;                                  // one entry for single problems
  virtual bool hypothesis(const Ix& sample, M34& model) const = 0;
  virtual std::vector<double> scores(const M34& model, const Ix& ix) const = 0; // in the order of ix
  virtual std::vector<double> allScores(const M34& model) = 0;         // getDistancesToModel, in the order of indices()
  virtual int count(const M34& model, double thr) = 0;
  virtual Ix select(const M34& model, double thr) = 0;
  virtual M34 optimise(const Ix& inliers, const M34& start) = 0;
  virtual void setIndices(const Ix& ix) = 0;
  virtual Ix indices() const = 0;                                      // serialised; grouped by camera for multi problems
  virtual Ix draw() = 0;
  virtual void reseed(uint64_t s) = 0;
  virtual Result robust(bool lmeds, int maxIt, double thr, double prob) = 0;
  virtual void setPrior(const M34& T) = 0;
  virtual M34 prior() const = 0;
  virtual std::vector<double> data() const = 0;                        // everything the adapter exposes, for change detection
  Ix grouped(const Ix& ix) const { Ix o; for (int c = 0; c < cams; c++) for (int i : ix) if (camOf[i] == c) o.push_back(i); return o; }
};
struct ProblemData { // correspondences; cameras in ascending order for multi problems
  AbsScene a; RelScene r; points_t p1, p2; std::vector<double> w;
};
struct ProbOpt { Ix restrict_; bool useRestrict = false; int adapterVariant = 0; };
// restrict_: serialised index set given at construction. The data must outlive the problem.
std::unique_ptr<Problem> makeProblem(int kind, const ProblemData& d, const ProbOpt& o = ProbOpt());
// independent score of one correspondence; cond = sine of the angle between the viewing rays under the hypothesis (1 when irrelevant)
double refScore(int kind, const ProblemData& d, const M34& m, int i, double* cond = nullptr);
struct GenOpt { int n = 20; int cams = 0; /*0: by kind*/ double spread = 0.7; int shape = -1; double maxRot = 0.7, minT = 0.3, maxT = 2; bool cross = true; bool uneven = true; };
// a scene suited to the kind; the truth is truthOf(kind, data)
inline ProblemData genData(Ctx& c, int kind, const GenOpt& o) {
  Src& s = c.s; ProblemData d; int cams = o.cams ? o.cams : isRig(kind) ? s.range(2, 5) : isShift(kind) ? 1 : 0; bool shift = isShift(kind); double unit = s.chance(0.25) ? s.logreal(1e-2, 1e2) : 1, spread = o.spread; // length unit
  auto uneven = [&](Ix& cam, int n) { cam.resize(n); for (int i = 0; i < n; i++) cam[i] = o.uneven ? s.range(0, cams - 1) : i % cams; if (isMulti(kind)) std::sort(cam.begin(), cam.end()); };
  if (isAbs(kind)) { AbsOpt a; a.n = o.n; a.cams = shift && !isMulti(kind) && s.chance(0.4) ? 0 : cams; a.spread = spread; a.scale = unit; a.shape = o.shape; d.a = absScene(c, a); if (!d.a.central) { uneven(d.a.cam, o.n); d.a.measure(); } return d; }
  if (kind == CLOUD) { RelOpt r; r.n = o.n; r.maxRot = M_PI; r.shape = o.shape; d.r = relScene(c, r); for (auto& x : d.r.X) { d.p1.push_back(x); d.p2.push_back(d.r.R.transpose() * (x - d.r.t)); } return d; }
  RelOpt r; r.n = o.n; r.cams = kind >= NSIX ? cams : 0; r.spread = spread; r.scale = unit; r.maxRot = o.maxRot; r.minT = o.minT; r.maxT = o.maxT; r.shape = o.shape; d.r = relScene(c, r); if (kind == ROTONLY) { d.r.t.setZero(); d.r.measure(); }
  if (!d.r.central) { uneven(d.r.c1, o.n); d.r.c2 = d.r.c1; if (!isMulti(kind) && o.cross) for (auto& k : d.r.c2) k = s.range(0, cams - 1); d.r.measure(); }
  return d;
}
inline M34 truthOf(int kind, const ProblemData& d) { return isAbs(kind) ? pose(d.a.R, d.a.t) : pose(d.r.R, d.r.t); }
inline ProblemData jitter(const ProblemData& d, Src& s, double e, int kind) { ProblemData b = d; if (isAbs(kind)) b.a = jitter(d.a, s, e); else { b.r = jitter(d.r, s, e); if (kind == ROTONLY) { b.r.t.setZero(); b.r.measure(); } if (kind == CLOUD) { b.p1.clear(); b.p2.clear(); for (auto& x : b.r.X) { b.p1.push_back(x); b.p2.push_back(b.r.R.transpose() * (x - b.r.t)); } } } return b; }
// prior required by the kind (rotation for the two-point problems, neighbourhood for the eigensolver)
inline M34 priorFor(int kind, const ProblemData& d, const M3& near) { if (kind == TWOPT && !d.a.central) return pose(d.a.R * d.a.rig.rot[0], V3::Zero()); if (kind == EIGEN) return pose(d.r.R * near, V3::Zero()); M34 T = truthOf(kind, d); T.col(3).setZero(); return T; }
// error of a model: rotation (rad) plus translation (relative; direction where the scale is unknown)
inline double modelErr(int kind, const ProblemData& d, const M34& m) {
  M34 T = truthOf(kind, d); if (!finite(m)) return 10; double r = rotErr(m.leftCols<3>(), T.leftCols<3>()); if (kind == ROTONLY) return r; double sc = 0; if (isAbs(kind)) { for (auto& x : d.a.p) sc = std::max(sc, (x - d.a.t).norm()); } else sc = d.r.t.norm() + (kind == CLOUD ? 1.0 : 0.0);
  V3 a = m.col(3), b = T.col(3); if (kind == NCENT || kind == MCENT) { int c1 = d.r.c1[0], c2 = d.r.c2[0]; a += M3(m.leftCols<3>()) * d.r.rig.off[c2] - d.r.rig.off[c1]; b += d.r.R * d.r.rig.off[c2] - d.r.rig.off[c1]; }
  if (scaleFree(kind)) return r + angleOf(a, b); return r + (a - b).norm() / sc; }
// scene options under which the algorithm of the kind is well posed, and its sample size
inline GenOpt optFor(Src& s, int kind, int n) { GenOpt o; o.n = n; o.cross = true;  if (kind == EIGEN) { o.maxRot = 0.5; o.shape = s.chance(0.7) ? 0 : -1; } if (kind >= STEWENIUS && kind <= EIGHTPT) o.maxRot = 1.5; if (kind == N17 || kind == M17) o.maxRot = 2.5; if (kind == CLOUD || kind == ROTONLY || kind == TRANSONLY) o.maxRot = M_PI; if (isRig(kind) && !isAbs(kind)) { o.cams = s.range(3, 6); o.spread = s.chance(0.5) ? 0.7 : 2; }  if (kind == NGE || kind == MGE) { o.maxRot = 0.3; o.minT = 0.15; o.maxT = 1; o.spread = s.chance(0.5) ? 0.5 : 1.5; o.shape = s.chance(0.7) ? 0 : -1; } return o; }
inline int sizeOf(int kind) { return kind == TWOPT || kind == ROTONLY || kind == TRANSONLY ? 2 : kind == CLOUD ? 3 : kind <= MABS_C ? (kind == EPNP ? 6 : 4) : kind == STEWENIUS || kind == NISTER || kind == NCENT || kind == MCENT || kind == NGE || kind == MGE ? 8 : kind == EIGEN ? 10 : kind == N17 || kind == M17 ? 17 : 9; }
// the sample determines the model well enough for its algorithm (the first points of the sample are used by the minimal solvers)
inline Ix first(const Ix& v, int k) { return Ix(v.begin(), v.begin() + std::min<int>(k, v.size())); }
inline double esCond(const RelScene& a, const Ix& idx) { M3 A = M3::Zero(), V; V3 e; for (int i : idx) { V3 v = a.f1[i].cross(a.R * a.f2[i]); A += v * v.transpose(); } jacobiEig<3>(A, e, V); return e[1] / idx.size(); }
inline bool usable(int kind, const ProblemData& d, const Ix& smp) {
  const AbsScene& a = d.a; const RelScene& r = d.r;
  if (kind == TWOPT) return angleOf(a.f[smp[0]], a.f[smp[1]]) > 0.05 && (a.p[smp[0]] - a.p[smp[1]]).norm() > 0.05;
  if (isAbs(kind)) { Ix core = first(smp, kind == EPNP ? 6 : 3); if (absCond(a, core) < 0.02) return false; double sc = 0; for (int i : core) sc = std::max(sc, (a.p[i] - a.t).norm());
    for (int i : core) { if (a.dir(i, a.R, a.t).norm() < 0.05 * sc) return false; for (int j : core) if (i < j && (a.p[i] - a.p[j]).norm() < 0.05 * sc) return false; }
    if (kind == GP3P || kind == MABS) { if (rotErr(a.R, M3::Identity()) > 2.7) return false; double apart = 0; for (int i : core) for (int j : core) apart = std::max(apart, (a.rig.off[a.cam[i]] - a.rig.off[a.cam[j]]).norm()); if (apart < 0.05 * sc) return false; }
    return kind == EPNP || (a.p[core[1]] - a.p[core[0]]).normalized().cross((a.p[core[2]] - a.p[core[0]]).normalized()).norm() > 0.05; }
  if (kind == ROTONLY) return std::sin(angleOf(r.f1[smp[0]], r.f1[smp[1]])) > 0.05;
  if (kind == TRANSONLY) { V3 x = r.f1[smp[0]].cross(r.R * r.f2[smp[0]]), y = r.f1[smp[1]].cross(r.R * r.f2[smp[1]]); return x.norm() > 0.03 && y.norm() > 0.03 && std::sin(angleOf(x, y)) > 0.05; }
  if (kind == CLOUD) { V3 x = d.p1[smp[1]] - d.p1[smp[0]], y = d.p1[smp[2]] - d.p1[smp[0]]; return x.cross(y).norm() > 0.05 * x.norm() * y.norm(); }
  if (kind <= EIGHTPT) return epiCond(r, first(smp, kind == SEVENPT ? 7 : kind == EIGHTPT ? 8 : 5)) > 0.01;
  if (kind == EIGEN) return epiCond(r, smp) > 0.03 && esCond(r, smp) > 2e-3;
  if (kind == NCENT || kind == MCENT) return true;
  if (kind == N17 || kind == M17) return rigPosed(r, smp, 1e-2) && rotErr(r.R, M3::Identity()) > 0.02 && lin17(r, smp) > 1e-3;
  if (kind == NGE || kind == MGE) { for (int i : smp) if (r.X[i].norm() < 1) return false; return rigPosed(r, smp, 3e-2); }
  return rigPosed(r, first(smp, 6), 2e-2);
}
// every correspondence outside keep becomes wrong (rays and points without relation)
struct Poison { bool on = false; bearingVectors_t f1, f2; points_t p; std::vector<char> hit;
  Poison() {}
  Poison(Src& s, int n, const Ix& keep, double prob = 0.5) { on = s.chance(prob); if (!on) return; hit.assign(n, 1); for (int i : keep) hit[i] = 0; f1.resize(n); f2.resize(n); p.resize(n); for (int i = 0; i < n; i++) if (hit[i]) { f1[i] = unitVec(s); f2[i] = unitVec(s); p[i] = vecIn(s, 5); } }
  void apply(int kind, ProblemData& d) const { if (!on) return; for (size_t i = 0; i < hit.size(); i++) if (hit[i]) { if (isAbs(kind)) { d.a.f[i] = f1[i]; d.a.p[i] = p[i]; } else if (kind == CLOUD) { d.p1[i] = p[i]; d.p2[i] = f2[i] * 3; } else { d.r.f1[i] = f1[i]; d.r.f2[i] = f2[i]; } } }
};
