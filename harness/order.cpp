#include "algos.hpp"
const char* pbt::RULE = "every algorithm on generated exact and noisy scenes with 0-12 surplus correspondences: ordered index subsets against adapters holding only these correspondences, all overloads against each other, permuted correspondences, rigidly moved world and viewpoint frames, scaled scenes. Non-trivial: every completed comparison";
// --- distance of two result lists -----------------------------------------------------
static double hdist(const Eigen::Matrix3cd& a, const Eigen::Matrix3cd& b) { std::complex<double> ip(0, 0); for (int k = 0; k < 9; k++) ip += std::conj(a(k)) * b(k); double c = std::abs(ip) / a.norm() / b.norm(); return std::sqrt(std::max(0.0, 2 - 2 * std::min(1.0, c))); }
static double scaleOf(const AlgData& d) { double s = 0; for (auto& x : d.a.p) s = std::max(s, (x - d.a.t).norm()); for (auto& x : d.r.X) s = std::max(s, x.norm()); for (auto& x : d.p1) s = std::max(s, x.norm()); return s; }
static double itemDist(int alg, const Out& x, size_t i, const Out& y, size_t j, double sc, bool freeScale) {
  switch (x.type) {
    case 'P': { M34 a = x.poseAt(i), b = y.poseAt(j); double e = (a.leftCols<3>() - b.leftCols<3>()).norm(); V3 t = a.col(3), u = b.col(3); if (freeScale) { double n = t.norm(), m = u.norm(); return e + (t / n - u / m).norm(); } return e + (t - u).norm() / sc; }
    case 'R': return (x.rotAt(i) - y.rotAt(j)).norm(); case 'T': return (x.vecAt(i) - y.vecAt(j)).norm() / (alg == A_TWOPT ? 1 : sc); case 'E': return hdist(x.essAt(i), y.essAt(j));
    case 'X': case 'G': { double e = (x.rotAt(i) - y.rotAt(j)).norm(); if (x.type == 'G') return e; V3 t(x.v[24 * i + 9], x.v[24 * i + 10], x.v[24 * i + 11]), u(y.v[24 * j + 9], y.v[24 * j + 10], y.v[24 * j + 11]); t.normalize(); u.normalize(); return e + std::min((t - u).norm(), (t + u).norm()); } /* length and eigenvalues depend on the parametrisation */ }
  return NAN;
}
// the data determines the result well (otherwise rounding decides)
static bool posed(int alg, const AlgData& d, const Ix& ix) {
  if (alg == A_UPNP && ix.size() < 5) return false; if ((alg == A_AOPT || alg == A_COPT || alg == A_ROPT || alg == A_EIGS) && rotErr(d.prior.leftCols<3>(), M3::Identity()) > 2.5) return false; // Cayley parameters
  if (algAbs(alg) && alg != A_P2P) { double sc = 0; for (int i : ix) sc = std::max(sc, (d.a.p[i] - d.a.t).norm()); for (int i : ix) if (d.a.dir(i, d.a.R, d.a.t).norm() < 0.05 * sc) return false; if (absCond(d.a, ix) < 1e-2) return false;
    if (alg == A_GPNP || alg == A_EPNP) { V3 m = V3::Zero(); for (int i : ix) m += d.a.p[i]; m /= ix.size(); M3 S = M3::Zero(), V; for (int i : ix) S += (d.a.p[i] - m) * (d.a.p[i] - m).transpose(); V3 ev; jacobiEig<3>(S / ix.size(), ev, V); if (std::sqrt(std::max(0.0, ev[0])) < 0.08 * sc) return false; }
    if (!d.a.central) { double apart = 0; for (int i : ix) for (int j : ix) apart = std::max(apart, (d.a.rig.off[d.a.cam[i]] - d.a.rig.off[d.a.cam[j]]).norm()); if ((alg == A_GP3P || alg == A_GPNP) && apart < 0.05 * sc) return false; } return true; }
  if (!algRel(alg) || alg == A_TWOROT || alg == A_ROT) return true; const RelScene& r = d.r;
  if (alg == A_17) return rigPosed(r, ix, 1e-2) && rotErr(r.R, M3::Identity()) > 0.02 && lin17(r, ix) > 1e-3; if (alg == A_GE || alg == A_SIX) return rigPosed(r, ix, 2e-2); if (alg == A_ROPT && !r.central) return rigPosed(r, ix, 3e-2);
  if (alg == A_TWOPT || alg >= A_TRI) return true; return epiCond(r, ix) > (alg == A_EIGS || alg == A_ROPT ? 3e-2 : 3e-3);
}
// items that are meaningful results for the data (closed forms pad their lists with inconsistent poses)
static std::vector<size_t> kept(int alg, const Out& x, const AlgData& d, const Ix& ix) {
  std::vector<size_t> k; for (size_t i = 0; i < x.size(); i++) { bool ok = true; for (int q = 0; q < x.per; q++) ok &= std::isfinite(x.v[i * x.per + q]); if (x.type == 'E') ok &= x.essAt(i).norm() > 1e-12;
    if (ok && alg <= A_GP3P && x.type == 'P') for (int q = 0; q < 3; q++) { M34 T = x.poseAt(i); V3 b = d.a.dir(ix[q], T.leftCols<3>(), T.col(3)); if (!(angleOf(d.a.f[ix[q]], b) < 1e-6)) ok = false; }
    if (ok && alg == A_SIX) ok = (x.rotAt(i) - d.r.R).norm() < 0.02;
    if (ok) k.push_back(i); }
  if (alg == A_UPNP && k.size() > 1) { size_t b = k[0]; double be = INFINITY; for (size_t i : k) { M34 T = x.poseAt(i); double e = 0; for (int q : ix) e += std::pow(d.a.reproj(q, T.leftCols<3>(), T.col(3)), 2); if (e < be) { be = e; b = i; } } return {b}; }
  return k;
}
static double listDist(int alg, const Out& x, const AlgData& dx, const Ix& ixx, const Out& y, const AlgData& dy, const Ix& ixy) {
  if (x.type != y.type) return INFINITY; auto a = kept(alg, x, dx, ixx), b = kept(alg, y, dy, ixy); double sc = scaleOf(dy), w = 0; bool fs = alg == A_ROPT && dy.r.central; if (a.empty() && b.empty()) return NAN; if (a.empty() || b.empty()) return INFINITY;
  for (size_t i : a) { double m = INFINITY; for (size_t j : b) m = std::min(m, itemDist(alg, x, i, y, j, sc, fs)); w = std::max(w, m); } for (size_t j : b) { double m = INFINITY; for (size_t i : a) m = std::min(m, itemDist(alg, x, i, y, j, sc, fs)); w = std::max(w, m); } return w;
}
static Out call(int alg, const Case& k, const AlgData& d, int how, const Ix& ix, int sd, int variant) { srand(sd); return instance(alg, d, variant)->run(alg, how, ix, d.flag); }
// the discrepancy of a relation must be tiny; a large one counts when neighbouring scenes show it as well
template <class F> static void relation(Ctx& c, const std::string& key, const Case& k, double tol, F dist, Pers p = Pers()) {
  double e = dist(k.d); if (std::isnan(e)) { c.label("nothing to compare"); return; } c.nontrivial(); c.metric(key, std::min(e, 1e9)); c.soft(key, e <= tol); if (e <= tol) return; int bad = 0, good = 0;
  for (int i = 0; i < p.k && good <= p.k - p.need; i++) { AlgData q = jitter(k.d, c.s, p.eps); addNoise(q, c.s, k.noise); double x = dist(q); if (std::isnan(x) || x <= tol) good++; else bad++; }
  c.require(bad < p.need, key, "results differ by ", e, ", tolerance ", tol, ", also for ", bad, " of ", p.k, " neighbouring scenes");
}
// --- index lists only select ------------------------------------------------------------
static void selection(Ctx& c, int alg) {
  Src& s = c.s; int k = drawN(s, alg), n = k + s.range(0, 8); Case cs = make(c, alg, n, s.chance(0.5)); Ix ix = shuffled(s, n, k); if (algMax(alg) == 99 && s.chance(0.12)) { c.label("repeated indices"); for (int q = s.range(1, 2 * n + 4); q > 0; q--) ix.insert(ix.begin() + s.below(ix.size() + 1), ix[s.below(ix.size())]); k = ix.size(); } Ix id = iota(k); int sd = s.range(1, 1 << 20); int v = cs.variant, v0 = v == 2 ? 0 : v; int extra = algMax(alg) != 99 && alg != A_F5K && alg != A_SIX && n > k && s.chance(0.4) ? 1 : 0; Ix ixe = ix; if (extra) ixe.push_back(s.range(0, n - 1)); // surplus entries of the list are ignored by the minimal solvers
  relation(c, "index list = copied subset", cs, 1e-7, [&](const AlgData& d) { AlgData b = subset(d, ix); Out x = algArgs(alg) && alg >= A_TRI ? call(alg, cs, d, ARGS, ix, sd, v) : call(alg, cs, d, LIST, ixe, sd, v); Out y = algAll(alg) ? call(alg, cs, b, ALL, id, sd, v0) : call(alg, cs, b, algArgs(alg) ? ARGS : LIST, id, sd, v0); return sameBits(x, y) ? 0.0 : listDist(alg, x, d, ix, y, b, id); });
  if (algAll(alg)) { Ix all = iota(n); if (algMax(alg) == 99) relation(c, "no list = all indices", cs, 1e-7, [&](const AlgData& d) { Out x = call(alg, cs, d, ALL, all, sd, v), y = call(alg, cs, d, LIST, all, sd, v); return sameBits(x, y) ? 0.0 : listDist(alg, x, d, all, y, d, all); }); }
  else if (alg != A_F5K && alg < A_TRI) relation(c, "arguments = list", cs, 1e-7, [&](const AlgData& d) { Out x = call(alg, cs, d, LIST, ix, sd, v), y = call(alg, cs, d, ARGS, ix, sd, v); return sameBits(x, y) ? 0.0 : listDist(alg, x, d, ix, y, d, ix); });
  if (algRand(alg)) { relation(c, "rotation overload with list", cs, 1e-7, [&](const AlgData& d) { Out x = call(alg, cs, d, LIST, ix, sd, v), y = call(alg, cs, d, LIST_R, ix, sd, v); return (x.rotAt(0) - y.rotAt(0)).norm(); }); relation(c, "rotation overload without list", cs, 1e-7, [&](const AlgData& d) { Out x = call(alg, cs, d, ALL, ix, sd, v), y = call(alg, cs, d, ALL_R, ix, sd, v); return (x.rotAt(0) - y.rotAt(0)).norm(); }); }
}
static void selB(pbt::Agg& a, int alg) { a.seen("index list = copied subset", 300); a.softAtMost("index list = copied subset", 0.002); if (a.count("no list = all indices")) a.softAtMost("no list = all indices", 0.002); if (a.count("arguments = list")) a.softAtMost("arguments = list", 0.002); }
// --- the order of the correspondences does not matter ------------------------------------
struct Lim { double tol, q50, q90, rate; };
static Case neat(Ctx& c, int alg, bool noisy) { return make(c, alg, drawN(c.s, alg) + (algMax(alg) == 99 ? 2 : 0), noisy); }
static Pers pers(int alg) { return alg == A_F5K || alg == A_SIX || alg == A_GE || alg == A_GP3P || alg == A_EIGS || alg == A_UPNP ? Pers{0, 1, 0} : alg == A_ROPT || alg == A_COPT || alg == A_AOPT ? Pers{15, 15, 0.1} : Pers(); } // these lose solutions: rates only
static void order(Ctx& c, int alg, double tol) {
  Src& s = c.s; Case cs = neat(c, alg, alg == A_F5K || alg == A_GE || alg == A_GPNP ? false : s.chance(0.5)); int n = (int)(algCloud(alg) ? cs.d.p1.size() : algAbs(alg) ? cs.d.a.n() : cs.d.r.n()); Ix id = iota(n), ix = shuffled(s, n, n); int sd = s.range(1, 1 << 20);
  relation(c, "permuted", cs, tol, [&](const AlgData& d) { if (!posed(alg, d, id)) return (double)NAN; Out x = call(alg, cs, d, LIST, id, sd, cs.variant), y = call(alg, cs, d, LIST, ix, sd, cs.variant); return listDist(alg, x, d, id, y, d, ix); }, pers(alg));
}
// --- changes of frame -----------------------------------------------------------------------
struct Move { M3 Q1, Q2; V3 q; double s; bool world, body, rotOnly; };
static AlgData moved(int alg, const AlgData& d, const Move& m) {
  AlgData b = d; M3 R = d.prior.leftCols<3>(); V3 t = d.prior.col(3);
  if (algAbs(alg)) { AbsScene& a = b.a; if (m.world) { for (auto& x : a.p) x = m.s * (m.Q1 * x + m.q); a.R = m.Q1 * a.R; a.t = m.s * (m.Q1 * a.t + m.q); for (auto& o : a.rig.off) o *= m.s; R = m.Q1 * R; t = m.s * (m.Q1 * t + m.q); }
    if (m.body) { if (a.central) for (auto& f : a.f) f = m.Q2.transpose() * f; else { V3 q = m.rotOnly ? V3(V3::Zero()) : V3(m.q * m.s); for (auto& o : a.rig.off) o = m.Q2.transpose() * (o - q); for (auto& r : a.rig.rot) r = m.Q2.transpose() * r; t += R * q; a.t += a.R * q; } R = R * m.Q2; a.R = a.R * m.Q2; } }
  else if (algCloud(alg)) { for (auto& x : b.p1) x = m.s * (m.Q1 * x + m.q); for (auto& x : b.p2) x = m.s * (m.Q2.transpose() * x); R = m.Q1 * R * m.Q2; t = m.s * (m.Q1 * t + m.q); }
  else { RelScene& r = b.r; if (r.central) { for (auto& f : r.f1) f = m.Q1 * f; for (auto& f : r.f2) f = m.Q2.transpose() * f; R = m.Q1 * R * m.Q2; t = m.s * (m.Q1 * t); for (auto& x : r.X) x = m.s * (m.Q1 * x); r.R = m.Q1 * r.R * m.Q2; r.t = m.s * (m.Q1 * r.t); }
    else { V3 q = m.rotOnly ? V3(V3::Zero()) : V3(m.q * m.s); const M3& Q = m.Q1; for (auto& o : r.rig.off) o = Q * (m.s * o) + q; for (auto& w : r.rig.rot) w = Q * w; for (auto& x : r.X) x = m.s * (Q * x) + q; R = Q * R * Q.transpose(); t = m.s * (Q * t) + q - R * q; r.t = m.s * (Q * r.t) + q - Q * r.R * Q.transpose() * q; r.R = Q * r.R * Q.transpose(); } }
  b.prior = pose(R, t); return b;
}
static Out movedOut(int alg, const Out& o, const AlgData& d, const Move& m) {
  Out y = o; for (size_t i = 0; i < o.size(); i++) { double* v = &y.v[i * y.per]; Eigen::Map<M3> R(v);
    if (algAbs(alg) || algCloud(alg)) { Eigen::Map<V3> t(o.type == 'T' ? v : v + 9); M3 R0 = o.type == 'T' ? M3(d.prior.leftCols<3>()) : M3(R); if (algCloud(alg)) { V3 u = m.s * (m.Q1 * t + m.q); t = u; M3 S = m.Q1 * R0 * m.Q2; R = S; continue; } if (m.world) { V3 u = m.s * (m.Q1 * t + m.q); t = u; R0 = m.Q1 * R0; } if (m.body) { if (!d.a.central && !m.rotOnly) { V3 u = t + R0 * (m.q * m.s); t = u; } R0 = R0 * m.Q2; } if (o.type != 'T') R = R0; continue; }
    bool cen = d.r.central; M3 Q2 = cen ? m.Q2 : M3(m.Q1.transpose());
    if (o.type == 'T') { Eigen::Map<V3> t(v); V3 u = m.Q1 * t * (alg == A_TWOPT ? 1 : m.s); if (!cen && !m.rotOnly && alg != A_TWOPT) u += m.q * m.s; t = u; continue; }
    if (o.type == 'E') { Eigen::Matrix3cd E = m.Q1.cast<std::complex<double>>() * o.essAt(i) * Q2.cast<std::complex<double>>(); for (int k = 0; k < 9; k++) { v[2 * k] = E(k).real(); v[2 * k + 1] = E(k).imag(); } continue; }
    M3 S = m.Q1 * M3(R) * Q2; R = S; if (o.type == 'P') { Eigen::Map<V3> t(v + 9); V3 u = m.s * (m.Q1 * t); if (!cen && !m.rotOnly) u += m.q * m.s - S * (m.q * m.s); t = u; } else if (o.type == 'X') { Eigen::Map<V3> t(v + 9); V3 u = m.Q1 * t; t = u; } }
  return y;
}
static void frames(Ctx& c, int alg, double tol, bool noisy) {
  Src& s = c.s; Case cs = neat(c, alg, noisy && s.chance(0.7)); bool noise = cs.noise > 0; int n = (int)(algCloud(alg) ? cs.d.p1.size() : algAbs(alg) ? cs.d.a.n() : cs.d.r.n()); Ix id = iota(n); int sd = s.range(1, 1 << 20); bool local = alg == A_EIGS || alg == A_ROPT;
  Move m; m.Q1 = anyRot(s); m.Q2 = local ? M3(m.Q1.transpose() * rotUpTo(s, 0.2)) : anyRot(s); m.q = vecIn(s, 5); m.s = s.chance(0.5) ? s.logreal(1e-3, 1e3) : 1; m.world = m.body = true; m.rotOnly = false;
  cs.d.flag = cs.d.flag || alg == A_TWOPT;
  if (noise && (alg == A_17 || alg == A_GE || alg == A_SIX)) { m.rotOnly = true; m.s = 1; } // algebraic error depends on origin and unit of length
  if (alg == A_17 || alg == A_SIX || alg == A_GE || alg == A_ROPT) m.q = vecIn(s, 1.0);
  relation(c, noise ? "moved, noisy" : "moved, exact", cs, tol * (noise ? 10 : 1), [&](const AlgData& d) { if (!posed(alg, d, id)) return (double)NAN; AlgData b = moved(alg, d, m); if (!posed(alg, b, id)) return (double)NAN; Out x = movedOut(alg, call(alg, cs, d, LIST, id, sd, cs.variant), d, m), y = call(alg, cs, b, LIST, id, sd, cs.variant); return listDist(alg, x, b, id, y, b, id); }, pers(alg));
}
#define S(a, q) TEST("selection " #a, q, 20 * q, [](Ctx& c) { selection(c, A_##a); }, [](pbt::Agg& g) { selB(g, A_##a); });
S(P2P, 4000) S(P3K, 8000) S(P3G, 4000) S(GP3P, 1500) S(EPNP, 3000) S(GPNP, 1500) S(UPNP, 1500) S(AOPT, 1000) S(TWOPT, 4000) S(TWOROT, 4000) S(ROT, 4000) S(STEW, 2000) S(NIST, 2000) S(F5K, 600) S(SEVEN, 2000) S(EIGHT, 2000) S(EIGS, 2000) S(SIX, 600) S(GE, 1500) S(17, 1500) S(ROPT, 1000) S(ARUN, 4000) S(COPT, 2000) S(TRI, 3000) S(TRI2, 3000)
static void lim(pbt::Agg& a, const std::string& k, Lim l, size_t n) { a.seen(k, n); a.atMost(k, 0.5, l.q50); a.atMost(k, 0.9, l.q90); a.softAtMost(k, l.rate); }
#define O(a, q, t, m, n, r) TEST("order " #a, q, 20 * q, [](Ctx& c) { order(c, A_##a, t); }, [](pbt::Agg& g) { lim(g, "permuted", {t, m, n, r}, 200); });
#define F(a, q, t, m, n, r, nz) TEST("frames " #a, q, 20 * q, [](Ctx& c) { frames(c, A_##a, t, nz); }, [](pbt::Agg& g) { lim(g, "moved, exact", {t, m, n, r}, 100); if (nz) { g.seen("moved, noisy", 100); g.softAtMost("moved, noisy", r); } });
// a: number of cases, tolerance, median, 90% quantile, rate above the tolerance
O(P3K, 4000, 1e-4, 1e-13, 1e-11, 3e-3) O(P3G, 6000, 1e-4, 1e-11, 1e-7, 0.02) O(GP3P, 3000, 1e-4, 1e-8, 1e-3, 0.16) O(EPNP, 3000, 1e-5, 1e-13, 1e-12, 3e-3) O(GPNP, 1500, 1e-5, 1e-12, 1e-10, 3e-3) O(UPNP, 1500, 1e-4, 1e-13, 1e-12, 0.01) O(AOPT, 1000, 1e-2, 1e-5, 1e-3, 0.01) O(ROT, 3000, 1e-7, 1e-14, 1e-13, 1e-3) O(STEW, 2000, 1e-5, 1e-6, 1e-6, 3e-3) O(NIST, 2000, 1e-5, 1e-6, 1e-6, 0.01) O(F5K, 1500, 1e-3, 1e-5, 1e-2, 0.16) O(SEVEN, 3000, 1e-5, 1e-6, 1e-6, 3e-3) O(EIGHT, 3000, 1e-6, 1e-7, 1e-7, 3e-3) O(EIGS, 2000, 1e-2, 1e-12, 1e-10, 0.02) O(SIX, 3000, 1e-3, 1e-4, 0.1, 0.35) O(GE, 1500, 1e-3, 1e-5, 5e-4, 0.02) O(17, 1500, 1e-6, 1e-13, 1e-12, 3e-3) O(ROPT, 1500, 1e-2, 3e-4, 3e-3, 0.05) O(ARUN, 3000, 1e-7, 1e-14, 1e-13, 1e-3) O(COPT, 1000, 5e-3, 1e-6, 1e-4, 0.01)
F(P2P, 4000, 1e-7, 1e-13, 1e-12, 1e-3, true) F(P3K, 4000, 1e-4, 1e-13, 1e-11, 3e-3, true) F(P3G, 6000, 1e-4, 1e-11, 1e-7, 0.02, true) F(GP3P, 3000, 1e-4, 1e-5, INFINITY, 0.6, true) F(EPNP, 3000, 1e-5, 1e-12, 1e-10, 3e-3, false) F(GPNP, 1500, 1e-5, 1e-12, 1e-10, 3e-3, false) F(UPNP, 1500, 1e-3, 1e-13, 1e-12, 0.06, true) F(AOPT, 1000, 1e-2, 1e-5, 1e-3, 0.02, true) F(TWOPT, 4000, 1e-7, 1e-12, 1e-10, 1e-3, true) F(TWOROT, 4000, 1e-7, 1e-13, 1e-12, 1e-3, true) F(ROT, 3000, 1e-7, 1e-14, 1e-13, 1e-3, true) F(STEW, 2000, 1e-5, 1e-6, 1e-6, 5e-3, true) F(NIST, 2000, 1e-5, 1e-6, 1e-6, 0.02, true) F(F5K, 1500, 1e-3, 1e-5, 1e-2, 0.2, false) F(SEVEN, 3000, 1e-5, 1e-6, 1e-6, 3e-3, true) F(EIGHT, 3000, 1e-6, 1e-7, 1e-7, 3e-3, true) F(EIGS, 2000, 1e-4, 1e-12, 1e-10, 0.12, false) F(SIX, 3000, 1e-3, 1e-4, 0.1, 0.35, false) F(GE, 1500, 1e-3, 1e-3, 0.2, 0.4, false) F(17, 1500, 1e-6, 1e-13, 1e-12, 3e-3, true) F(ROPT, 1500, 1e-2, 3e-4, 3e-3, 0.03, true) F(ARUN, 3000, 1e-7, 1e-14, 1e-13, 1e-3, true) F(COPT, 1000, 5e-3, 1e-5, 1e-4, 0.015, true) F(TRI, 3000, 1e-6, 1e-13, 1e-12, 1e-3, false) F(TRI2, 3000, 1e-7, 1e-12, 1e-11, 1e-3, true)
