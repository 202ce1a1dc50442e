#include "problems.hpp"
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
const char* pbt::RULE = "scenes with 30-90 exact correspondences for every problem type and algorithm, of which a share (up to 45 % for small, 10 % for 17-point samples) is replaced by gross outliers: random directions, exchanged correspondences or a second rigid motion; full and restricted index sets; Ransac, Lmeds and MultiRansac with the problem's own draws. Non-trivial: at least one outlier";
static double thrOf(int kind) { double a = kind == NGE || kind == MGE ? 0.01 : kind == NSIX || kind == MSIX ? 0.005 : 0.001; return kind == CLOUD ? 0.02 : 2 * std::sin(a / 2) * std::sin(a / 2); }
static double tolOf(int kind) { return kind == NGE || kind == MGE || kind == NSIX || kind == MSIX ? 0.03 : 0.01; }
static bool isRateOnly(int kind) { return kind == NSIX || kind == MSIX || kind == NGE || kind == MGE; }
struct Run { bool ok = false, all = false, only = false, proper = false; double e = 10; Ix missing, extra; M34 model; Ix inliers; int its = 0; };
static std::string lst(const Ix& v) { std::string s = "{"; for (size_t i = 0; i < v.size() && i < 30; i++) s += (i ? " " : "") + std::to_string(v[i]); return s + "}"; }
static void e2e(Ctx& c, int kind) {
  Src& s = c.s; c.label(kindName[kind]); int m = sizeOf(kind); GenOpt o = optFor(s, kind, s.chance(0.06) ? s.range(91, 400) : s.range(std::max(30, 3 * m), 90)); o.uneven = false; if (isMulti(kind) && o.cams == 0 && isRig(kind)) o.cams = s.range(2, 4); if (isMulti(kind) && kind >= MSIX && isRig(kind)) { o.cams = s.range(3, 4); o.n = std::max(o.n, 60); } int n = o.n;
  ProblemData d = genData(c, kind, o); ProblemData clean = d; double T = thrOf(kind); M34 truth = truthOf(kind, d);
  // outliers
  double maxShare = m <= 4 ? 0.45 : m <= 10 ? 0.25 : 0.1; double share = s.chance(0.05) ? 0 : s.real(0.05, maxShare); std::vector<char> out(n, 0); int k = (int)(share * n); Ix pick = shuffled(s, n, k); for (int i : pick) out[i] = 1;
  int type = s.range(0, 2); c.label(type == 0 ? "random outliers" : type == 1 ? "exchanged" : "second motion");
  M3 R2 = rotUpTo(s, M_PI); V3 t2 = vecIn(s, 3);
  for (size_t q = 0; q < pick.size(); q++) { int i = pick[q], j = pick[(q + 1) % pick.size()];
    for (int tr = 0; tr < 6; tr++) { int ty = tr ? 0 : type;
      if (isAbs(kind)) { if (ty == 0) d.a.f[i] = unitVec(s); else if (ty == 1) d.a.f[i] = clean.a.f[j]; else d.a.f[i] = clean.a.dir(i, R2, t2).normalized(); }
      else if (kind == CLOUD) { if (ty == 0) d.p2[i] = vecIn(s, 8); else if (ty == 1) d.p2[i] = clean.p2[j]; else d.p2[i] = R2.transpose() * (d.p1[i] - t2); }
      else { if (ty == 0) d.r.f2[i] = unitVec(s); else if (ty == 1) d.r.f2[i] = clean.r.f2[j]; else { RelScene r2 = clean.r; r2.R = R2; r2.t = kind == ROTONLY ? V3(V3::Zero()) : t2; d.r.f2[i] = r2.d2(i).normalized(); } }
      if (refScore(kind, d, truth, i) > (kind == CLOUD ? 10 : 100) * T) break; } }
  // index restriction
  ProbOpt po; po.adapterVariant = s.range(0, 1); Ix set(n); std::iota(set.begin(), set.end(), 0);
  if (s.chance(0.4) && n >= 5 * m) { Ix r = shuffled(s, n, s.range(n * 7 / 10, n - 1)); int in = 0; for (int i : r) in += !out[i]; int perCam = 1000; if (isMulti(kind)) { Ix cnt(8, 0); const Ix& cam = isAbs(kind) ? d.a.cam : d.r.c1; for (int i : r) cnt[cam[i]]++; for (int q = 0; q < (int)(isAbs(kind) ? d.a.rig.off.size() : d.r.rig.off.size()); q++) perCam = std::min(perCam, cnt[q]); } if (in >= (int)(r.size() * (1 - maxShare)) && perCam >= 8) { set = r; po.useRestrict = true; po.restrict_ = r; c.label("restricted"); } }
  std::vector<char> in(n, 0); for (int i : set) in[i] = 1; Ix must; int nOut = 0, nIn = 0; for (int i : set) { double cond; double sc = refScore(kind, d, truth, i, &cond); if (out[i]) { nOut++; continue; } nIn++; if (cond > 5e-3 && sc < 1e-6 * T) must.push_back(i); }
  if (kind == NGE || kind == MGE) for (auto& x : d.r.X) if (x.norm() < 1) c.discard();
  // the inliers determine the model
  if (rotErr(clean.r.n() ? clean.r.R : M3(M3::Identity()), M3::Identity()) < 0.05 && isRig(kind) && !isAbs(kind)) c.discard();
  { ProblemData q = clean; if (kind == NCENT || kind == MCENT) { M3 C = q.r.rig.rot[0]; V3 f = q.r.rig.off[0]; for (auto& x : q.r.X) x = C.transpose() * (x - f); q.r.t = C.transpose() * (q.r.t + q.r.R * f - f); q.r.R = C.transpose() * q.r.R * C; q.r.central = true; q.r.measure(); }
    int ok = 0; for (int k = 0; k < 20; k++) { Ix w = must; for (int i = 0; i < m && i < (int)w.size(); i++) std::swap(w[i], w[s.range(i, (int)w.size() - 1)]); w.resize(std::min<size_t>(w.size(), m)); if ((int)w.size() == m) ok += usable(kind == NCENT || kind == MCENT ? STEWENIUS : kind, q, w); } c.metric(std::string(kindName[kind]) + " usable samples", ok); if (ok < 8 && !isRateOnly(kind)) c.discard(); }
  if (nOut) c.nontrivial(); double w = (double)nIn / set.size(); double pGood = std::pow(w, m) * 0.4; int maxIt = std::min(3000, std::max(20, (int)std::ceil(std::log(1e-6) / std::log(1 - pGood)))); double prob = s.chance(0.5) ? 0.99 : 0.9999; bool lm = !isMulti(kind) && s.chance(0.3); if (lm) { c.label("lmeds"); if (kind >= NSIX && kind <= NGE) maxIt = std::min(maxIt, 60); }
  M3 near = rotUpTo(s, 0.05); uint64_t sd = s.below(1ull << 30); M34 prior = priorFor(kind, clean, near); std::unique_ptr<Problem> P;
  auto runOn = [&](const ProblemData& d, const ProblemData& clean, const Ix& must, uint64_t seed) { Run r; const M34 truth = truthOf(kind, clean); srand(seed % 1000000); P = makeProblem(kind, d, po); P->setPrior(prior); P->reseed(seed); Result q = P->robust(lm, maxIt, T, prob); r.ok = q.ok; if (!q.ok) return r; r.model = q.model; r.inliers = q.inliers; r.its = q.iterations; r.e = modelErr(kind, clean, q.model); r.proper = isRot(q.model.leftCols<3>(), 1e-6); std::vector<char> got(n, 0); for (int i : q.inliers) { c.require(i >= 0 && i < n && in[i], "inlier outside the index set", i); c.require(!got[i], "inlier listed twice", i); got[i] = 1; }
    for (int i : must) if (!got[i]) r.missing.push_back(i); for (int i : set) if (out[i] && got[i] && refScore(kind, d, truth, i) > 100 * T) r.extra.push_back(i); r.all = r.missing.empty(); r.only = r.extra.empty(); return r; };
  auto run = [&](uint64_t seed) { return runOn(d, clean, must, seed); };
  for (int i = 0; i < n; i++) c.note(str(clean.a.p.size() ? clean.a.p[i] : clean.r.X[i]) + (out[i] ? " out" : "") + (in[i] ? "" : " unused")); c.note("truth " + str(truth));
  auto good = [&](const Run& r) { return r.ok && r.all && r.only && r.e <= tolOf(kind); };
  Run r = run(sd); std::string key = kindName[kind]; if (lm) key += " lmeds"; if (r.ok) c.metric(key + " error", r.e); c.soft(key, good(r)); c.metric(key + " iterations", r.its);
  std::string det = std::string(r.ok ? "" : "no model; ") + "error " + std::to_string(r.e) + " missing " + lst(r.missing) + " extra " + lst(r.extra) + " of " + std::to_string(nIn) + " inliers " + std::to_string(nOut) + " outliers maxIt " + std::to_string(maxIt);
  if (isRateOnly(kind) && !good(r)) return; // these solvers do not converge for every scene
  if (!good(r)) { int tries = 8, bad = 1; for (int q = 1; q < tries; q++) { Run x = run(sd + 977 * q); if (good(x)) { r = x; break; } bad++; } if (bad == tries) { // neighbouring scenes with the same outliers
      int failing = 0; for (int q = 0; q < 8; q++) { ProblemData cl = jitter(clean, s, 0.05, kind), x = cl; for (int i = 0; i < n; i++) if (out[i]) { if (isAbs(kind)) x.a.f[i] = d.a.f[i]; else if (kind == CLOUD) x.p2[i] = d.p2[i]; else x.r.f2[i] = d.r.f2[i]; }
        Ix mu; for (int i : set) { double cond; double sc = refScore(kind, x, truthOf(kind, cl), i, &cond); if (!out[i] && cond > 5e-3 && sc < 1e-6 * T) mu.push_back(i); } M34 keep = prior; prior = priorFor(kind, cl, near); bool ok = false; for (int z = 0; z < 3 && !ok; z++) ok = good(runOn(x, cl, mu, sd + 31 * z)); failing += !ok; prior = keep; }
      c.require(failing < 6, key, "8 of 8 runs failed, also for ", failing, " of 8 neighbouring scenes; first: ", det); return; } }
  c.soft(key + " proper", r.proper);
  // refinement on the inliers keeps the result
  if (kind == TWOPT || rotErr(truth.leftCols<3>(), M3::Identity()) > 3.0) return; // no Cayley parameters at half turns
  P->setPrior(kind == EIGEN ? r.model : prior); M34 f = P->optimise(r.inliers, r.model); double e = modelErr(kind, clean, f); c.metric(key + " refined", e); c.soft(key + " refined", e <= std::max(1e-3, 1.5 * r.e));
  Ix sel = P->select(f, T); std::vector<char> got(n, 0); for (int i : sel) got[i] = 1; bool keep = true; for (int i : must) keep &= got[i]; c.soft(key + " refined set", keep);
}
static void bounds(pbt::Agg& a, int kind) {
  for (int l = 0; l < (isMulti(kind) ? 1 : 2); l++) {
    std::string k = kindName[kind]; if (l) k += " lmeds"; bool six = kind == NSIX || kind == MSIX, ge = kind == NGE || kind == MGE, gp = kind == GP3P || kind == MABS, closed = kind == CLOUD || kind == ROTONLY || kind == EIGEN; a.seen(k + " error", 20);
    a.atMost(k + " error", 0.5, six ? 5e-3 : kind == MGE ? 0.04 : ge ? 0.01 : gp ? 5e-10 : kind == GAO ? 3e-12 : 1e-12); if (!six && !ge) a.atMost(k + " error", 0.9, gp ? 3e-6 : kind == GAO ? 1e-8 : 1e-10);
    a.softAtMost(k, kind == NSIX ? 0.25 : kind == NGE ? 0.35 : kind == MSIX ? 0.4 : kind == MGE ? 0.55 : 0.02); a.softAtMost(k + " proper", 0.01); if (kind == TWOPT) continue;
    a.seen(k + " refined", 20); a.atMost(k + " refined", 0.5, closed ? 5e-14 : six || ge ? 5e-4 : 5e-8); if (!six && !ge) a.atMost(k + " refined", 0.9, kind == EIGEN ? 1e-11 : closed ? 1e-13 : 3e-7); a.softAtMost(k + " refined", 0.02); a.softAtMost(k + " refined set", 0.02);
  }
}
#define E2E(k, q) TEST("robust " #k, q, 15 * q, [](Ctx& c) { e2e(c, k); }, [](pbt::Agg& a) { bounds(a, k); });
E2E(TWOPT, 4000) E2E(KNEIP, 4000) E2E(GAO, 4000) E2E(EPNP, 3000) E2E(GP3P, 2000) E2E(MABS, 2000) E2E(MABS_C, 3000) E2E(STEWENIUS, 2000) E2E(NISTER, 2000) E2E(SEVENPT, 2000) E2E(EIGHTPT, 2000) E2E(EIGEN, 1000) E2E(ROTONLY, 3000) E2E(TRANSONLY, 3000) E2E(NSIX, 400) E2E(NGE, 800) E2E(N17, 1500) E2E(NCENT, 1500) E2E(MSIX, 400) E2E(MGE, 800) E2E(M17, 1500) E2E(MCENT, 1500) E2E(CLOUD, 3000)
// several pairs of views at once
TEST("robust pairs of views", 2000, 30000, [](Ctx& c) {
  Src& s = c.s; int pairs = s.range(1, 3); std::vector<std::shared_ptr<opengv::bearingVectors_t>> b1, b2; std::vector<ProblemData> d(pairs); MIx inl(pairs); double thr = thrOf(EIGHTPT); bool some = false;
  for (int k = 0; k < pairs; k++) { int n = s.range(30, 60); GenOpt o = optFor(s, EIGHTPT, n); d[k] = genData(c, EIGHTPT, o); Ix ix = shuffled(s, n, n); int nb = s.range(0, n * (pairs == 1 ? 15 : pairs == 2 ? 9 : 6) / 100); Ix bad(ix.begin(), ix.begin() + nb), good(ix.begin() + nb, ix.end()); if (!usable(EIGHTPT, d[k], good)) c.discard();
    for (int i : bad) { V3 f; int t = 0; do f = unitVec(s); while (++t < 50 && [&] { d[k].r.f2[i] = f; return refScore(EIGHTPT, d[k], truthOf(EIGHTPT, d[k]), i) < 30 * thr; }()); if (t >= 50) c.discard(); some = true; } std::sort(good.begin(), good.end()); inl[k] = good; b1.emplace_back(new opengv::bearingVectors_t(d[k].r.f1)); b2.emplace_back(new opengv::bearingVectors_t(d[k].r.f2)); }
  if (some) c.nontrivial(); typedef opengv::sac_problems::relative_pose::MultiCentralRelativePoseSacProblem P; opengv::relative_pose::CentralRelativeMultiAdapter A(b1, b2); auto p = std::make_shared<P>(A, 8, false); p->rng_alg_.seed((unsigned)s.below(1ull << 31)); opengv::sac::MultiRansac<P> r(600, thr, 0.9999); r.sac_model_ = p; bool ok = r.computeModel(0); c.soft("found", ok); if (!ok) return;
  c.require((int)r.model_coefficients_.size() == pairs, "number of poses", r.model_coefficients_.size()); double e = 0; for (int k = 0; k < pairs; k++) e = std::max(e, modelErr(EIGHTPT, d[k], r.model_coefficients_[k])); c.metric("error", e); c.soft("error", e < 0.01); c.soft("inliers", r.inliers_ == inl);
}, [](pbt::Agg& a) { a.seen("error", 300); a.atMost("error", 0.5, 1e-12); a.atMost("error", 0.9, 1e-10); a.softAtMost("error", 0.02); a.softAtMost("found", 0.001); a.softAtMost("inliers", 0.03); });
