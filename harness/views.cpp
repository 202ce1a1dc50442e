#include "problems.hpp"
#include "algos.hpp"
const char* pbt::RULE = "every algorithm and every pair of equivalent descriptions of the same correspondences: vector, multi-camera and raw-array adapters; cameras renumbered, split into one per correspondence, or padded with unused ones; central data as a rig of one camera at the origin; explicit unit weights; single- against multi-camera sample-consensus problems. Exact and noisy scenes, ordered index subsets. Non-trivial: every completed comparison";
static Out call(int alg, const AlgData& d, int how, const Ix& ix, int sd, int variant) { srand(sd); return instance(alg, d, variant)->run(alg, how, ix, d.flag); }
static std::string num(double x) { char b[32]; snprintf(b, 32, "%.17g", x); return b; }
static void same(Ctx& c, const char* what, int alg, const Out& x, const Out& y) {
  c.label(what); if (x.v.size() != y.v.size()) c.fail(what, std::string(algName[alg]) + ": " + std::to_string(x.size()) + " and " + std::to_string(y.size()) + " results");
  for (size_t i = 0; i < x.v.size(); i++) if (!(x.v[i] == y.v[i] || (std::isnan(x.v[i]) && std::isnan(y.v[i])))) c.fail(what, std::string(algName[alg]) + " value " + std::to_string(i) + ": " + num(x.v[i]) + " and " + num(y.v[i]));
  c.nontrivial();
}
// another numbering of the cameras
static void recam(Src& s, Rig& rig, std::vector<std::vector<int>*> cams, int how) {
  int k = (int)rig.off.size(); Rig r; std::vector<std::vector<int>> m(cams.size());
  if (how == 0) { Ix p = shuffled(s, k, k); Ix inv(k); for (int i = 0; i < k; i++) { r.off.push_back(rig.off[p[i]]); r.rot.push_back(rig.rot[p[i]]); inv[p[i]] = i; } for (auto q : cams) for (auto& x : *q) x = inv[x]; }
  else if (how == 1) { for (auto q : cams) for (auto& x : *q) { r.off.push_back(rig.off[x]); r.rot.push_back(rig.rot[x]); x = (int)r.off.size() - 1; } }
  else { int z = s.range(1, 3); for (int i = 0; i < z; i++) { r.off.push_back(vecIn(s, 3)); r.rot.push_back(anyRot(s)); } for (int i = 0; i < k; i++) { r.off.push_back(rig.off[i]); r.rot.push_back(rig.rot[i]); } r.off.push_back(vecIn(s, 3)); r.rot.push_back(anyRot(s)); for (auto q : cams) for (auto& x : *q) x += z; }
  rig = r;
}
static void views(Ctx& c, int alg) {
  Src& s = c.s; int k = drawN(s, alg), n = k + s.range(0, 6); Case cs = make(c, alg, n, s.chance(0.5)); AlgData& d = cs.d; Ix ix = shuffled(s, n, k); int sd = s.range(1, 1 << 20), how = algArgs(alg) && s.chance(0.5) ? ARGS : algAll(alg) && (algMax(alg) == 99 || n == k) && s.chance(0.3) ? ALL : LIST; if (alg >= A_TRI) how = ARGS;
  bool isRig = rig(cs); if (isRig && s.chance(0.5)) { for (auto& R : d.a.rig.rot) R.setIdentity(); for (auto& R : d.r.rig.rot) R.setIdentity(); if (d.a.n()) d.a.measure(); if (d.r.n()) d.r.measure(); addNoise(d, s, cs.noise); } // raw arrays know no camera rotations
  bool plain = true; for (auto& R : d.a.rig.rot) plain &= (R - M3::Identity()).norm() == 0; for (auto& R : d.r.rig.rot) plain &= (R - M3::Identity()).norm() == 0;
  bool sorted = algAbs(alg) ? std::is_sorted(d.a.cam.begin(), d.a.cam.end()) : std::is_sorted(d.r.c1.begin(), d.r.c1.end()) && d.r.c1 == d.r.c2; int v = isRig || !algRel(alg) ? 0 : cs.variant; if (d.w.size()) v = 1; Out ref = call(alg, d, how, ix, sd, v);
  if (isRig) {
    if (sorted) same(c, "multi-camera adapter", alg, ref, call(alg, d, how, ix, sd, 2)); if (plain) same(c, "raw array adapter", alg, ref, call(alg, d, how, ix, sd, 3)); if (plain && sorted && algRel(alg)) same(c, "raw array multi-camera adapter", alg, ref, call(alg, d, how, ix, sd, 4));
    int h = s.range(0, 2); AlgData e = d; std::vector<std::vector<int>*> q; if (algAbs(alg)) q = {&e.a.cam}; else q = {&e.r.c1, &e.r.c2}; recam(s, algAbs(alg) ? e.a.rig : e.r.rig, q, h); same(c, h == 0 ? "cameras renumbered" : h == 1 ? "one camera per bearing" : "unused cameras", alg, ref, call(alg, e, how, ix, sd, 0));
    if (h == 1 && algAbs(alg)) same(c, "one camera per bearing, multi-camera adapter", alg, ref, call(alg, e, how, ix, sd, 2));
    return;
  }
  if (algCloud(alg)) { same(c, "raw array adapter", alg, ref, call(alg, d, how, ix, sd, 3)); return; }
  if (d.w.size()) { d.w.assign(n, 1.0); ref = call(alg, d, how, ix, sd, 1); same(c, "unit weights", alg, ref, call(alg, d, how, ix, sd, 0)); }
  same(c, "raw array adapter", alg, ref, call(alg, d, how, ix, sd, 3));
  AlgData e = d; Rig one; one.off.push_back(V3::Zero()); one.rot.push_back(M3::Identity()); if (algAbs(alg)) { e.a.central = false; e.a.rig = one; e.a.cam.assign(n, 0); } else { e.r.central = false; e.r.rig = one; e.r.c1.assign(n, 0); e.r.c2.assign(n, 0); }
  int w = s.pick(std::vector<int>{0, 2, 3}); if (w == 3 && algRel(alg) && s.chance(0.5)) w = 4; same(c, w == 0 ? "one camera at the origin" : w == 2 ? "one camera at the origin, multi-camera adapter" : "one camera at the origin, raw arrays", alg, ref, call(alg, e, how, ix, sd, w));
}
#define V(a, q) TEST("views " #a, q, 20 * q, [](Ctx& c) { views(c, A_##a); }, [](pbt::Agg&) {});
V(P2P, 8000) V(P3K, 8000) V(P3G, 8000) V(GP3P, 3000) V(EPNP, 6000) V(GPNP, 3000) V(UPNP, 3000) V(AOPT, 2000) V(TWOPT, 8000) V(TWOROT, 8000) V(ROT, 8000) V(STEW, 4000) V(NIST, 4000) V(F5K, 800) V(SEVEN, 4000) V(EIGHT, 4000) V(EIGS, 4000) V(SIX, 800) V(GE, 3000) V(17, 3000) V(ROPT, 2000) V(ARUN, 8000) V(COPT, 4000) V(TRI, 8000) V(TRI2, 8000)
// the multi-camera problem types against the single ones on the same correspondences
static void multi(Ctx& c, int one, int many) {
  Src& s = c.s; int m = sizeOf(many), n = s.range(m + 2, m + 25); GenOpt o = optFor(s, many, n); o.cams = s.range(2, 4); o.cross = false; ProblemData d = genData(c, many, o); if (s.chance(0.5)) { double e = s.logreal(1e-5, 1e-2); if (isAbs(many)) d.a.noise(s, e); else d.r.noise(s, e); }
  auto P = makeProblem(one, d), Q = makeProblem(many, d); M34 prior = priorFor(many, d, rotUpTo(s, 0.05)); P->setPrior(prior); Q->setPrior(prior); M34 truth = truthOf(many, d), T = pose(truth.leftCols<3>() * rotUpTo(s, 0.3), truth.col(3) + vecIn(s, 0.3)); Ix all = iota(n), ix = Q->grouped(shuffled(s, n, s.range(1, n)));
  c.label(kindName[many]); auto cmp = [&](const char* what, const std::vector<double>& a, const std::vector<double>& b, double tol) { c.require(a.size() == b.size(), what, a.size(), " and ", b.size(), " values"); for (size_t i = 0; i < a.size(); i++) c.require(std::fabs(a[i] - b[i]) <= tol || (std::isnan(a[i]) && std::isnan(b[i])), what, kindName[many], " value ", i, ": ", num(a[i]), " and ", num(b[i])); };
  cmp("scores", P->scores(T, ix), Q->scores(T, ix), 1e-12); cmp("all scores", P->scores(T, all), Q->allScores(T), 1e-12); Ix S = P->indices(); c.require(S == Q->indices(), "index set", "");
  std::vector<double> sc = P->scores(T, all); std::sort(sc.begin(), sc.end()); int at = s.range(0, n - 1); double thr = at + 1 < n ? 0.5 * (sc[at] + sc[at + 1]) : sc[at] + 1e-3; if (at + 1 < n && sc[at + 1] - sc[at] < 1e-11) thr = 1; 
  c.require(P->count(T, thr) == Q->count(T, thr), "count", P->count(T, thr), " and ", Q->count(T, thr)); c.require(P->select(T, thr) == Q->select(T, thr), "selection", "");
  // (the six-point rig problem starts with a random camera, its choice of the six is not comparable)
  Ix smp = Q->draw(); if (smp.empty()) c.discard(); srand(7); M34 a, b; a.setZero(); b.setZero(); bool x = many != MSIX && P->hypothesis(smp, a); srand(7); bool y = many != MSIX && Q->hypothesis(smp, b); c.require(x == y, "hypothesis found", x, " and ", y); if (x) cmp("hypothesis", std::vector<double>(a.data(), a.data() + 12), std::vector<double>(b.data(), b.data() + 12), 1e-9 * (1 + a.col(3).norm()));
  if ((int)all.size() >= 6 && s.chance(0.3)) { P->setPrior(prior); Q->setPrior(prior); M34 e = P->optimise(all, T), f = Q->optimise(all, T); cmp("optimised", std::vector<double>(e.data(), e.data() + 12), std::vector<double>(f.data(), f.data() + 12), 1e-9 * (1 + e.col(3).norm())); }
  c.nontrivial();
}
#define M(a, b, q) TEST("multi problem " #b, q, 20 * q, [](Ctx& c) { multi(c, a, b); }, [](pbt::Agg&) {});
M(GP3P, MABS, 3000) M(NSIX, MSIX, 1500) M(NGE, MGE, 1500) M(N17, M17, 1500)
