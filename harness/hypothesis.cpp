#include "problems.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
const char* pbt::RULE = "every problem type and algorithm on exact generated scenes (1-5 cameras, shifted single cameras, samples drawn by the problem itself or arbitrary subsets in random order) for hypotheses; exact and noisy scenes, starts near the truth and inlier subsets of 6-30 correspondences for optimisation. Non-trivial: every completed case";
static bool rateOnly(int kind) { return kind == EIGEN || kind == NSIX || kind == MSIX || kind == NGE || kind == MGE; }
static double tolOf(int kind) { return kind == EIGEN ? 1e-4 : kind == NGE || kind == MGE ? 2e-2 : kind == NSIX || kind == MSIX ? 1e-3 : 1e-5; }
static void hyp(Ctx& c, int kind) {
  Src& s = c.s; c.label(kindName[kind]); int m = sizeOf(kind), n = m + s.range(0, 12); if (isMulti(kind)) n = std::max(n, 30); ProblemData d = genData(c, kind, optFor(s, kind, n)); M3 near = rotUpTo(s, 0.05); uint64_t sd = s.below(1ull << 30);
  Ix smp; { auto p = makeProblem(kind, d); p->reseed(sd); smp = shuffled(s, n, m); if (isMulti(kind) || s.chance(0.5)) { smp = p->draw(); if (smp.empty()) { c.label("no sample"); c.discard(); } c.require((int)smp.size() == m, "sample size", smp.size(), " expected ", m); } }
  if (!usable(kind, d, smp)) c.discard();
  c.nontrivial(); bool proper = true; bool ok1 = true; std::string detail;
  int tries = kind == EIGEN || kind == NGE || kind == MGE || kind == MSIX ? 6 : 1; // these draw a random start
  Poison poison(s, n, smp); if (poison.on) c.label("wrong correspondences outside the sample");
  auto errOf = [&](const ProblemData& q0) { ProblemData q = q0; poison.apply(kind, q); srand(7); auto p = makeProblem(kind, q); p->setPrior(priorFor(kind, q, near)); double best = 9; for (int k = 0; k < tries; k++) { M34 T; bool ok = p->hypothesis(smp, T); if (!ok) { ok1 = false; continue; } if (!isRot(T.leftCols<3>(), 1e-6)) proper = false; double e = modelErr(kind, q0, T); if (detail.empty()) detail = str(T) + " expected " + str(truthOf(kind, q)); best = std::min(best, e); if (tries > 1) c.metric(std::string(kindName[kind]) + " single", e); } return best; };
  double e = errOf(d); bool pr = proper; c.soft(std::string(kindName[kind]) + " proper", pr || !ok1); std::string key = kindName[kind]; double tol = tolOf(kind); c.metric(key, e); c.soft(key, e <= tol); if (e <= tol) { c.require(pr, "improper rotation", detail); return; }
  if (rateOnly(kind)) return;
  Pers P; if (kind == GP3P || kind == MABS) P = Pers{16, 16, 0.06}; int bad = 0; for (int i = 0; i < P.k; i++) if (!(errOf(jitter(d, s, P.eps, kind)) <= tol)) bad++; c.require(bad < P.need, key, "error ", e, ", also for ", bad, " of ", P.k, " neighbouring scenes: ", detail);
}
static void opti(Ctx& c, int kind) {
  Src& s = c.s; c.label(kindName[kind]); int n = s.range(isAbs(kind) || kind == CLOUD || kind == ROTONLY ? 8 : 12, 40); ProblemData d = genData(c, kind, optFor(s, kind, n)); double noise = s.chance(0.5) ? 0 : s.logreal(1e-4, 5e-3); if (noise > 0) { if (isAbs(kind)) d.a.noise(s, noise); else if (kind == CLOUD) for (auto& p : d.p1) p += rv(s, noise * 5); else d.r.noise(s, noise); }
  M34 T = truthOf(kind, d); double pert = s.logreal(1e-4, 0.03); M34 st = pose(T.leftCols<3>() * axisAngle(unitVec(s), pert), T.col(3) + (kind == ROTONLY ? V3(V3::Zero()) : V3(unitVec(s) * pert * std::max(0.3, d.r.n() ? d.r.t.norm() : 1.0)))); Ix in = shuffled(s, n, s.range(std::min(n, 8), n)); if (isAbs(kind) && absCond(d.a, in) < 0.05) c.discard();
  Poison poison(s, n, in); if (poison.on) c.label("wrong correspondences outside the inliers"); ProblemData dp = d; poison.apply(kind, dp); auto p = makeProblem(kind, dp);
  if (s.chance(0.5)) p->setPrior(pose(anyRot(s), vecIn(s, 2))); if (kind == EIGEN) p->setPrior(st); if (s.chance(0.5)) p->scores(pose(anyRot(s), vecIn(s, 2)), in); c.nontrivial(); Ix in0 = in; M34 o = p->optimise(in, st); std::string key = kindName[kind]; c.require(isRot(o.leftCols<3>(), 1e-6), "improper rotation", str(o)); c.require(in == in0, "inlier list changed", "");
  auto cost = [&](const M34& m, const ProblemData& q) { double t = 0; for (int i : in) { double x = refScore(kind, q, m, i); t += kind == ROTONLY ? x : x * x; } return t; };
  double c0 = cost(st, d), c1 = cost(o, d); if (kind == ROTONLY) c.metric(key + " residual ratio to start", c1 / c0); else if (kind != EIGEN) { c.require(c1 <= c0 * (1 + 1e-6) + 1e-18, "summed residual increased", "from ", c0, " to ", c1, " for ", key); }
  if (noise == 0) { double e = modelErr(kind, d, o); c.metric(key + " exact", e); c.soft(key + " exact", e <= 1e-2); } else { double cT = cost(T, d); c.metric(key + " noisy residual / residual of the truth", c1 / cT); double e = modelErr(kind, d, o) / noise; c.metric(key + " noisy error / noise", e); }
}
struct Bound { double q50, q90, rate; };
static const std::map<int, Bound> B = {{TWOPT, {1e-14, 4e-14, 1e-4}}, {KNEIP, {3e-14, 4e-13, 2e-3}}, {GAO, {2e-12, 1e-9, 8e-3}}, {EPNP, {3e-13, 2e-11, 4e-3}}, {GP3P, {4e-10, 3e-6, 0.11}}, {MABS, {4e-10, 3e-6, 0.11}}, {MABS_C, {3e-14, 4e-13, 2e-3}}, {STEWENIUS, {3e-13, 1e-11, 5e-3}}, {NISTER, {5e-14, 2e-13, 5e-3}}, {SEVENPT, {3e-13, 1e-11, 4e-3}}, {EIGHTPT, {2e-13, 1e-12, 2e-3}}, {EIGEN, {1e-13, 1e-11, 0.06}}, {ROTONLY, {1e-14, 3e-14, 1e-4}}, {TRANSONLY, {2e-14, 1e-13, 1e-4}}, {NSIX, {6e-6, 6e-3, 0.14}}, {NGE, {0.01, 10, 0.5}}, {N17, {3e-13, 2e-12, 1e-3}}, {NCENT, {1e-12, 1e-10, 5e-3}}, {MSIX, {5e-5, 0.06, 0.25}}, {MGE, {3e-3, 0.2, 0.25}}, {M17, {3e-13, 2e-12, 1e-3}}, {MCENT, {1e-12, 1e-10, 5e-3}}, {CLOUD, {4e-14, 1.5e-13, 1e-4}}};
static void hb(pbt::Agg& a, int kind) { Bound b = B.at(kind); a.seen(kindName[kind], 300); a.atMost(kindName[kind], 0.5, b.q50); a.atMost(kindName[kind], 0.9, b.q90); a.softAtMost(kindName[kind], b.rate); }
static void ob(pbt::Agg& a, int kind) {
  std::string k = kindName[kind]; bool closed = kind == CLOUD || kind == ROTONLY || kind == EIGEN, abs = isAbs(kind); a.seen(k + " exact", 300); a.seen(k + " noisy error / noise", 300);
  a.atMost(k + " exact", 0.5, closed ? 5e-14 : abs ? 3e-6 : 1e-4); a.atMost(k + " exact", 0.9, closed ? 2e-12 : abs ? 4e-4 : 5e-3); a.softAtMost(k + " exact", kind == M17 ? 0.1 : 0.02);
  a.atMost(k + " noisy error / noise", 0.5, abs ? 5 : kind == ROTONLY ? 3 : kind == CLOUD ? 7 : kind == M17 ? 80 : 50); a.atMost(k + " noisy error / noise", 0.9, abs ? 15 : kind == ROTONLY ? 6 : kind == CLOUD ? 15 : kind == M17 ? 500 : 200);
  if (!closed) { a.atMost(k + " noisy residual / residual of the truth", 0.5, 0.75); a.atMost(k + " noisy residual / residual of the truth", 0.9, 0.97); } else { a.atMost(k + " noisy residual / residual of the truth", 0.5, 1.2); a.atMost(k + " noisy residual / residual of the truth", 0.9, kind == EIGEN ? 3 : 1.5); }
}
// the two problems around the generalized eigensolver have no disambiguation of their own: they return its result for the sample
static void delegates(Ctx& c, int kind) {
  Src& s = c.s; ProblemData d = genData(c, kind, optFor(s, kind, 40)); int sd = s.range(1, 1 << 30); auto p = makeProblem(kind, d); p->reseed(sd); Ix smp = p->draw(); if (smp.empty()) c.discard(); c.nontrivial(); Ix c1, c2; points_t X; bearingVectors_t f1, f2; for (int i : smp) { f1.push_back(d.r.f1[i]); f2.push_back(d.r.f2[i]); c1.push_back(d.r.c1[i]); c2.push_back(d.r.c2[i]); }
  opengv::relative_pose::NoncentralRelativeAdapter ad(f1, f2, c1, c2, d.r.rig.off, d.r.rig.rot); opengv::geOutput_t o; srand(sd); opengv::relative_pose::ge(ad, o); srand(sd); M34 T; bool ok = p->hypothesis(smp, T); c.require(ok, "no hypothesis", ""); M34 D = pose(o.rotation, o.translation.head<3>());
  if (!finite(D)) { c.label("not finite"); return; } double e = (T - D).norm() / D.norm(); c.metric("difference", e); c.require(e < 1e-6, "differs from the solver's result", str(T), " ", str(D));
}
TEST("GE result", 3000, 60000, [](Ctx& c) { delegates(c, NGE); }, [](pbt::Agg& a) { a.seen("difference", 300); }); TEST("GE result multi", 3000, 60000, [](Ctx& c) { delegates(c, MGE); }, [](pbt::Agg& a) { a.seen("difference", 300); });
#define H(k, q) TEST("hypothesis " #k, q, 20 * q, [](Ctx& c) { hyp(c, k); }, [](pbt::Agg& a) { hb(a, k); });
#define O(k, q) TEST("optimise " #k, q, 20 * q, [](Ctx& c) { opti(c, k); }, [](pbt::Agg& a) { ob(a, k); });
H(TWOPT, 20000) H(KNEIP, 50000) H(GAO, 50000) H(EPNP, 30000) H(GP3P, 8000) H(MABS, 8000) H(MABS_C, 30000) H(STEWENIUS, 20000) H(NISTER, 20000) H(SEVENPT, 30000) H(EIGHTPT, 30000) H(EIGEN, 10000) H(ROTONLY, 20000) H(TRANSONLY, 20000) H(NSIX, 8000) H(NGE, 8000) H(N17, 15000) H(NCENT, 20000) H(MSIX, 15000) H(MGE, 15000) H(M17, 15000) H(MCENT, 20000) H(CLOUD, 20000)
O(KNEIP, 4000) O(GP3P, 4000) O(MABS, 4000) O(STEWENIUS, 4000) O(EIGEN, 4000) O(ROTONLY, 4000) O(TRANSONLY, 4000) O(N17, 4000) O(NCENT, 4000) O(M17, 4000) O(MCENT, 4000) O(CLOUD, 4000) 

// --- whatever the sample (noise, wrong correspondences): among the solutions of the minimal solver the one that fits the additional correspondences best is chosen
static void fourPoses(const M3& E, std::vector<M34>& out) {
  Eigen::JacobiSVD<M3> v(E, Eigen::ComputeFullU | Eigen::ComputeFullV); M3 U = v.matrixU(), V = v.matrixV(), W; W << 0, -1, 0, 1, 0, 0, 0, 0, 1;
  for (int k = 0; k < 4; k++) { M3 R = U * (k & 1 ? M3(W) : M3(W.transpose())) * V.transpose(); if (R.determinant() < 0) R = -R; out.push_back(pose(R, (k & 2 ? 1.0 : -1.0) * U.col(2) * v.singularValues()[0])); }
}
static std::vector<M34> candidates(int kind, const ProblemData& d, const Ix& smp) {
  std::vector<M34> out; Ix head; namespace rp = opengv::relative_pose; namespace ap = opengv::absolute_pose;
  auto take = [&](const opengv::transformations_t& v) { for (auto& T : v) out.push_back(T); };
  if (kind == KNEIP || kind == GAO) { ap::CentralAbsoluteAdapter a(d.a.f, d.a.p); take(kind == KNEIP ? ap::p3p_kneip(a, smp) : ap::p3p_gao(a, smp)); return out; }
  if (kind == GP3P || kind == MABS) { ap::NoncentralAbsoluteAdapter a(d.a.f, d.a.cam, d.a.p, d.a.rig.off, d.a.rig.rot); take(ap::gp3p(a, smp)); return out; }
  int need = kind == SEVENPT ? 7 : kind == EIGHTPT ? 8 : kind == NSIX ? 6 : 5; head.assign(smp.begin(), smp.begin() + need);
  if (kind != NSIX) { rp::CentralRelativeAdapter a(d.r.f1, d.r.f2); opengv::essentials_t E; if (kind == NISTER) E = rp::fivept_nister(a, head); else if (kind == SEVENPT) E = rp::sevenpt(a, head); else if (kind == EIGHTPT) E.push_back(rp::eightpt(a, head)); else for (auto& z : rp::fivept_stewenius(a, head)) E.push_back(z.real()); for (auto& e : E) if (e.allFinite()) fourPoses(e, out); return out; }
  rp::NoncentralRelativeAdapter a(d.r.f1, d.r.f2, d.r.c1, d.r.c2, d.r.rig.off, d.r.rig.rot);
  for (auto& R : rp::sixpt(a, head)) { Eigen::Matrix4d G = Eigen::Matrix4d::Zero(); for (int i : head) { V3 f1 = d.r.rig.rot[d.r.c1[i]] * d.r.f1[i], f2 = d.r.rig.rot[d.r.c2[i]] * d.r.f2[i], o1 = d.r.rig.off[d.r.c1[i]], o2 = d.r.rig.off[d.r.c2[i]]; Eigen::Vector4d g; V3 n = f1.cross(R * f2); g << n, f1.dot(o1.cross(R * f2)) - f1.dot(R * o2.cross(f2)); G += g * g.transpose(); }
    if (!G.allFinite()) continue; Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> e(G); Eigen::Vector4d v = e.eigenvectors().col(0); out.push_back(pose(R, v.head<3>() / v[3])); }
  return out;
}
static void choice(Ctx& c, int kind) {
  Src& s = c.s; c.label(kindName[kind]); int m = sizeOf(kind), n = isMulti(kind) ? 30 : m + s.range(0, 12); ProblemData d = genData(c, kind, optFor(s, kind, n)); if (isAbs(kind) && !isRig(kind) && !d.a.central) c.discard();
  double noise = s.logreal(1e-4, 0.2); if (isAbs(kind)) d.a.noise(s, noise); else d.r.noise(s, noise); bool wrong = s.chance(0.3);
  auto p = makeProblem(kind, d); Ix smp; if (isMulti(kind)) { p->reseed(s.below(1ull << 30)); smp = p->draw(); if (smp.empty()) c.discard(); smp = p->grouped(smp); } else smp = shuffled(s, n, m);
  if (wrong) for (int i : smp) if (s.chance(0.2)) { if (isAbs(kind)) d.a.f[i] = unitVec(s); else d.r.f2[i] = unitVec(s); }
  p = makeProblem(kind, d); if (!isAbs(kind)) p->setPrior(priorFor(kind, d, M3::Identity())); std::vector<M34> cand = candidates(kind, d, smp); Ix extra = isAbs(kind) ? Ix{smp[3]} : kind == NSIX ? Ix(smp.begin() + 6, smp.end()) : smp;
  auto cost = [&](const M34& T) { double f = 0; for (double x : p->scores(T, extra)) f += x; return f; }; double best = INFINITY; int finiteOnes = 0; for (auto& T : cand) { double f = cost(T); if (std::isfinite(f)) { finiteOnes++; best = std::min(best, f); } }
  M34 H; bool ok = p->hypothesis(smp, H); if (!finiteOnes) { c.label("no candidate"); return; } if (finiteOnes > 1) c.nontrivial(); c.label(finiteOnes > 4 ? "5+ candidates" : finiteOnes > 1 ? "2-4 candidates" : "1 candidate"); c.note("noise " + std::to_string(noise) + " candidates " + std::to_string(finiteOnes));
  c.metric("best score", best); c.require(ok, "no hypothesis", "although there are ", finiteOnes, " candidates; the best has score ", best); double f = cost(H); c.require(f <= best * (1 + 1e-6) + 1e-9, "not the best candidate", "score ", f, " but there is a candidate with ", best, ": ", str(H));
}
static struct RegC { RegC() { static std::vector<std::string> names; names.reserve(KINDS); for (int k : {KNEIP, GAO, GP3P, MABS, STEWENIUS, NISTER, SEVENPT, EIGHTPT, NSIX}) { names.push_back(std::string("choice ") + kindName[k]); int q = k == NSIX ? 4000 : k == NISTER || k == STEWENIUS ? 20000 : 30000; pbt::Reg(names.back().c_str(), q, 20 * q, [k](Ctx& c) { choice(c, k); }, [](pbt::Agg& a) { a.seen("best score", 300); }); } } } regC;
// one relative pose per pair of views (MultiCentralRelativePoseSacProblem, eight-point)
TEST("hypothesis pairs of views", 10000, 200000, [](Ctx& c) {
  Src& s = c.s; int pairs = s.range(1, 4), m = s.range(8, 10); std::vector<ProblemData> d(pairs); std::vector<Poison> bad(pairs); std::vector<std::shared_ptr<opengv::bearingVectors_t>> b1, b2; MIx smp(pairs); bool ok = true;
  for (int k = 0; k < pairs; k++) { int n = m + s.range(0, 10); d[k] = genData(c, EIGHTPT, optFor(s, EIGHTPT, n)); smp[k] = shuffled(s, n, m); ok &= usable(EIGHTPT, d[k], smp[k]); bad[k] = Poison(s, n, smp[k]); } if (!ok) c.discard(); c.nontrivial();
  M34 prior = pose(anyRot(s), vecIn(s, 2));
  auto errOf = [&](bool jit) { double worst = 0; b1.clear(); b2.clear(); std::vector<ProblemData> e = d; for (int k = 0; k < pairs; k++) { if (jit) e[k] = jitter(d[k], s, 0.02, EIGHTPT); ProblemData q = e[k]; bad[k].apply(EIGHTPT, q); b1.emplace_back(new opengv::bearingVectors_t(q.r.f1)); b2.emplace_back(new opengv::bearingVectors_t(q.r.f2)); }
    opengv::relative_pose::CentralRelativeMultiAdapter A(b1, b2); A.setR12(prior.leftCols<3>()); A.sett12(prior.col(3)); typedef opengv::sac_problems::relative_pose::MultiCentralRelativePoseSacProblem P; P p(A, m, false); P::model_t T(s.range(0, 5)), o; bool found = p.computeModelCoefficients(smp, T); c.require(found, "no hypothesis", ""); c.require((int)T.size() == pairs, "number of poses", T.size(), " for ", pairs, " pairs"); c.require(M34(pose(A.getR12(), A.gett12())) == prior, "prior pose changed", "");
    for (int k = 0; k < pairs; k++) { c.require(isRot(T[k].leftCols<3>(), 1e-6), "improper rotation", str(T[k])); worst = std::max(worst, modelErr(EIGHTPT, e[k], T[k])); } p.optimizeModelCoefficients(smp, T, o); c.require((int)o.size() == pairs, "number of optimised poses", o.size()); for (int k = 0; k < pairs; k++) c.require(modelErr(EIGHTPT, e[k], o[k]) <= modelErr(EIGHTPT, e[k], T[k]) + 1e-6, "worse after optimisation", str(o[k])); return worst; };
  double e = errOf(false); c.metric("error", e); c.soft("error", e < 1e-5); if (e < 1e-5) return; int no = 0; for (int i = 0; i < 6; i++) no += !(errOf(true) < 1e-5); c.require(no < 4, "not the true poses", "error ", e, ", also for ", no, " of 6 neighbouring scenes");
}, [](pbt::Agg& a) { a.seen("error", 300); a.atMost("error", 0.5, 1e-13); a.atMost("error", 0.9, 1e-12); a.softAtMost("error", 0.001); });
