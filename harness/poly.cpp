#include "geo.hpp"
#include <opengv/math/roots.hpp>
#include <opengv/math/Sturm.hpp>
#include <opengv/math/gauss_jordan.hpp>
#include <algorithm>
#include <cstring>
#include <memory>
#include <list>
using namespace opengv;
const char* pbt::RULE = "polynomials expanded from chosen separated real roots and complex pairs (random, integer, symmetric about zero or a common centre), leading coefficients over 12 decades; non-singular matrices (dense, sparse, permuted, several scales). Non-trivial: at least one real root / at least two rows";

struct Poly { std::vector<double> p; std::vector<double> real; std::vector<std::pair<double, double>> cplx; double lead; };
static double sepOf(const Poly& q) { double m = 1e9; auto& r = q.real; for (size_t i = 0; i < r.size(); i++) { for (size_t j = i + 1; j < r.size(); j++) m = std::min(m, std::fabs(r[i] - r[j])); for (auto& z : q.cplx) m = std::min(m, std::hypot(r[i] - z.first, z.second)); } for (size_t i = 0; i < q.cplx.size(); i++) { m = std::min(m, 2 * q.cplx[i].second); for (size_t j = i + 1; j < q.cplx.size(); j++) m = std::min(m, std::hypot(q.cplx[i].first - q.cplx[j].first, q.cplx[i].second - q.cplx[j].second)); } return m; }
// root layout 0 random, 1 integers / Gaussian integers, 2 symmetric about a centre, 3 random about a far centre
static Poly genPoly(Ctx& c, int deg, double sep, bool leadAny, int minReal = 0, int layout = -1) {
  Src& s = c.s; Poly q; int k = layout >= 0 ? layout : s.range(0, 3); c.label(k == 0 ? "random roots" : k == 1 ? "integer roots" : k == 2 ? "symmetric roots" : "shifted roots");
  double ctr = k == 3 ? s.real(-3, 3) : (k == 2 && s.chance(0.5)) ? s.range(-2, 2) : 0; 
  for (int attempt = 0; attempt < 60; attempt++) {
    q.real.clear(); q.cplx.clear(); int n = deg; 
    if (k == 2) { if (n & 1) { q.real.push_back(ctr); n--; } while (n > 0) { if (n >= 4 && s.chance(0.2)) { double x = s.from(sep, 2), y = s.from(sep, 2); q.cplx.push_back({ctr + x, y}); q.cplx.push_back({ctr - x, y}); n -= 4; } else if (s.chance(0.6)) { double r = s.from(sep, 2.5); q.real.push_back(ctr + r); q.real.push_back(ctr - r); n -= 2; } else { q.cplx.push_back({ctr, s.from(sep, 2)}); n -= 2; } } }
    else while (n > 0) { if (n >= 2 && s.chance(0.4)) { q.cplx.push_back(k == 1 ? std::make_pair((double)s.range(-3, 3), (double)s.range(1, 3)) : std::make_pair(ctr + s.real(-2, 2), s.from(sep, 2))); n -= 2; } else { q.real.push_back(k == 1 ? s.range(-4, 4) : ctr + s.real(-2.5, 2.5)); n--; } }
    if ((int)q.real.size() >= minReal && sepOf(q) >= sep) break; if (attempt == 59) c.discard();
  }
  std::sort(q.real.begin(), q.real.end()); q.lead = 1; if (leadAny) q.lead = (s.chance(0.5) ? -1 : 1) * (s.chance(0.5) ? s.from(0.5, 2) : s.logreal(1e-6, 1e6));
  std::vector<__float128> a(1, 1); auto mul = [&](std::vector<__float128> f) { std::vector<__float128> r(a.size() + f.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < f.size(); j++) r[i + j] += a[i] * f[j]; a = r; };
  for (double r : q.real) mul({1, -(__float128)r}); for (auto& z : q.cplx) mul({1, -2 * (__float128)z.first, (__float128)z.first * z.first + (__float128)z.second * z.second});
  for (auto v : a) q.p.push_back((double)(v * (__float128)q.lead)); c.nontrivial(!q.real.empty());
  if (c.verbose) { std::ostringstream o; o.precision(17); o << "coefficients"; for (double v : q.p) o << " " << v; o << "\nreal roots"; for (double r : q.real) o << " " << r; for (auto& z : q.cplx) o << "\npair " << z.first << " +- i " << z.second; c.note(o.str()); }
  return q;
}
static std::vector<double> parts(const Poly& q) { std::vector<double> v = q.real; for (auto& z : q.cplx) { v.push_back(z.first); v.push_back(z.first); } std::sort(v.begin(), v.end()); return v; }
static std::string show(const std::vector<double>& v) { std::ostringstream o; o.precision(12); for (double x : v) o << x << " "; return o.str(); }
static double listErr(std::vector<double> a, const std::vector<double>& b) { if (a.size() != b.size()) return INFINITY; for (double x : a) if (!std::isfinite(x)) return INFINITY; std::sort(a.begin(), a.end()); double e = 0; for (size_t i = 0; i < a.size(); i++) e = std::max(e, std::fabs(a[i] - b[i])); return e; }
static Eigen::MatrixXd rowOf(const std::vector<double>& p) { Eigen::MatrixXd m(1, p.size()); for (size_t i = 0; i < p.size(); i++) m(0, i) = p[i]; return m; }

// --- closed forms -----------------------------------------------------------------------
TEST("cubic", 400000, 3000000, [](Ctx& c) {
  Poly q = genPoly(c, 3, 0.2, true); auto got = math::o3_roots(q.p); double e = listErr(got, parts(q)); c.metric("error", e);
  c.require(e < 1e-9, "cubic", "returned ", show(got), " expected ", show(parts(q)));
}, [](pbt::Agg& a) { a.atMost("error", 0.5, 1e-13); a.atMost("error", 0.9, 1e-11); });
TEST("quartic", 400000, 3000000, [](Ctx& c) {
  Poly q = genPoly(c, 4, 0.2, true); Eigen::MatrixXd col = rowOf(q.p).transpose(); auto a = math::o4_roots(q.p); auto b = math::o4_roots(col); double e = listErr(a, parts(q)); 
  c.require(a.size() == b.size() && (std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0 || listErr(a, b) < 1e-9), "overloads differ", show(a), " / ", show(b));
  c.metric("error", e); c.require(e < 1e-8, "quartic", "returned ", show(a), " expected ", show(parts(q)));
}, [](pbt::Agg& a) { a.atMost("error", 0.5, 1e-12); a.atMost("error", 0.9, 1e-9); });
// --- Sturm chains -----------------------------------------------------------------------
static int countIn(const Poly& q, double lo, double hi) { int n = 0; for (double r : q.real) n += r > lo && r < hi; return n; }
static void sturm(Ctx& c, int lo, int hi, double sep) {
  Src& s = c.s; int deg = s.range(lo, hi); Poly q = genPoly(c, deg, sep, true, 0, s.chance(0.5) ? 0 : 3); Eigen::MatrixXd row = rowOf(q.p);
  bool vec = s.chance(0.5); std::unique_ptr<math::Sturm> st(vec ? new math::Sturm(q.p) : new math::Sturm(row));
  double B = st->computeLagrangianBound(); double mx = 0; for (double r : q.real) mx = std::max(mx, std::fabs(r)); c.require(std::isfinite(B) && mx <= B * (1 + 1e-12), "bound", "bound ", B, " largest root ", mx);
  // counts between random bounds that keep away from the roots
  for (int k = 0; k < 4; k++) { double a = s.real(-6, 6), b = s.real(-6, 6); if (a > b) std::swap(a, b); bool near = false; for (double r : q.real) near = near || std::fabs(r - a) < 0.05 * sep || std::fabs(r - b) < 0.05 * sep; if (near) continue;
    int n = (int)st->evaluateChain(a) - (int)st->evaluateChain(b), n2 = (int)st->evaluateChain2(a) - (int)st->evaluateChain2(b); c.require(n == countIn(q, a, b), "count", "between ", a, " and ", b, " counted ", n, " real ", countIn(q, a, b)); c.require(n2 == n, "count2", "second evaluation counts ", n2, " not ", n); }
  auto r = st->findRoots(); c.require(r.size() == q.real.size(), "number", "findRoots ", show(r), " expected ", show(q.real)); double e = listErr(r, q.real); c.metric("findRoots", e); c.require(e < 1e-3, "findRoots", "returned ", show(r), " expected ", show(q.real));
  std::vector<double> b; double eps = s.logreal(1e-9, 0.05) ; st->bracketRoots(b, eps); c.require(b.size() == q.real.size(), "number of brackets", show(b), " expected ", show(q.real)); e = listErr(b, q.real); c.require(e <= eps + 1e-4, "bracketRoots", "eps ", eps, " returned ", show(b), " expected ", show(q.real));
  std::vector<double> bd; st->bracketRoots(bd); c.require(bd.size() == q.real.size() && listErr(bd, q.real) <= B, "default brackets", show(bd), " expected ", show(q.real));
  double ex = s.logreal(1e-8, 0.01), ev = s.logreal(1e-10, 1e-3); std::vector<double> f; st->findRoots2(f, ex, ev); c.require(f.size() == q.real.size(), "number of roots 2", show(f), " expected ", show(q.real)); std::sort(f.begin(), f.end());
  for (size_t i = 0; i < f.size(); i++) { __float128 v = 0; for (double a : q.p) v = v * f[i] + a; double d = std::fabs(f[i] - q.real[i]); c.require(d <= ex + 1e-4 || std::fabs((double)v) <= ev * (1 + 1e-6), "findRoots2", "eps_x ", ex, " eps_val ", ev, " root ", f[i], " expected ", q.real[i], " value ", (double)v); c.require(d < 0.5 * sep || deg > 5 || ev > 1e-7 * std::fabs(q.lead), "findRoots2 root", "eps_x ", ex, " eps_val ", ev, " root ", f[i], " expected ", q.real[i]); }
}
TEST("sturm low degree", 1000000, 1000000, [](Ctx& c) { sturm(c, 2, 5, 0.2); }, [](pbt::Agg& a) { a.atMost("findRoots", 0.5, 1e-13); a.atMost("findRoots", 0.99, 1e-10); });
TEST("sturm high degree", 100000, 500000, [](Ctx& c) { sturm(c, 6, 10, 0.2); }, [](pbt::Agg& a) { a.atMost("findRoots", 0.5, 1e-11); a.atMost("findRoots", 0.99, 1e-7); });
TEST("bracket", 20000, 300000, [](Ctx& c) {
  Src& s = c.s; double a = s.real(-5, 5), w = s.logreal(1e-6, 5), b = a + w; int la = s.range(0, 6), ub = s.range(0, la); c.nontrivial(); math::Bracket br(a, b); c.require(br.lowerBound() == a && br.upperBound() == b && !br.lowerBoundChangesComputed() && !br.upperBoundChangesComputed(), "new", "");
  br.setLowerBoundChanges(la); c.require(br.lowerBoundChangesComputed() && !br.upperBoundChangesComputed(), "lower set", ""); br.setUpperBoundChanges(ub); c.require(br.upperBoundChangesComputed() && br.numberRoots() == (size_t)(la - ub), "number", la, " ", ub); double eps = s.logreal(1e-6, 5); int n = la - ub;
  c.require(br.dividable(eps) == (n > 1 || (n == 1 && w >= eps)) || std::fabs(w - eps) < 1e-9, "dividable", "width ", w, " eps ", eps, " roots ", n); std::list<math::Bracket::Ptr> l; br.divide(l); c.require(l.size() == 2, "two halves", ""); auto x = l.front(), y = l.back();
  c.require(x->lowerBound() == a && y->upperBound() == b && x->upperBound() == y->lowerBound() && x->upperBound() > a && x->upperBound() < b && std::fabs(x->upperBound() - 0.5 * (a + b)) < 1e-9, "halves", x->upperBound());
  c.require(x->lowerBoundChangesComputed() && !x->upperBoundChangesComputed() && !y->lowerBoundChangesComputed() && y->upperBoundChangesComputed(), "inherited", ""); int m = s.range(ub, la); x->setUpperBoundChanges(m); y->setLowerBoundChanges(m); c.require((int)x->numberRoots() == la - m && (int)y->numberRoots() == m - ub, "inherited changes", la, " ", m, " ", ub);
});
// --- elimination ----------------------------------------------------------------------------
TEST("gauss_jordan", 100000, 500000, [](Ctx& c) {
  Src& s = c.s; int n = s.range(1, 10), extra = s.range(0, 8), m = n + extra, kind = s.range(0, 4), exitRow = s.chance(0.4) ? 0 : s.range(0, n - 1); c.label(kind == 4 ? "entries of very different size" : kind == 0 ? "dense" : kind == 1 ? "sparse" : kind == 2 ? "permuted triangular" : "integers"); double sc = s.chance(0.3) ? s.logreal(1e-2, 1e2) : 1;
  Eigen::MatrixXd A(n, m); A.setZero(); std::vector<int> perm = [&] { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); for (int i = 0; i < n; i++) std::swap(v[i], v[i + s.below(n - i)]); return v; }();
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double v = s.real(-1, 1); if (kind == 1 && s.chance(0.6)) v = 0; if (kind == 3) v = s.range(-3, 3); if (kind == 4) v = (v < 0 ? -1 : 1) * s.logreal(1e-9, 1); if (kind == 2 && j < i && j < n) v = 0; A(kind == 2 ? perm[i] : i, j) = v * sc; }
  if (kind == 1 || kind == 3 || kind == 4) for (int i = 0; i < n; i++) if (kind == 4 || s.chance(0.7)) A(perm[i], i) += 2 * sc;
  Eigen::FullPivLU<Eigen::MatrixXd> lu(A.leftCols(n)); Eigen::JacobiSVD<Eigen::MatrixXd> sv(A.leftCols(n)); if (!(sv.singularValues()[n - 1] > 1e-2 * sc)) c.discard(); c.nontrivial(n > 1); c.note("exit row " + std::to_string(exitRow) + " A=" + str(A));
  Eigen::MatrixXd ref = lu.solve(A); std::vector<std::vector<double>> rows(n, std::vector<double>(m)); std::vector<std::vector<double>*> M; for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) rows[i][j] = A(i, j); M.push_back(&rows[i]); }
  std::vector<std::vector<double>*> before = M; math::gauss_jordan(M, exitRow); c.require((int)M.size() == n, "rows", ""); auto p1 = M, p2 = before; std::sort(p1.begin(), p1.end()); std::sort(p2.begin(), p2.end()); c.require(p1 == p2, "row pointers", "rows lost or duplicated");
  Eigen::MatrixXd G(n, m); for (int i = 0; i < n; i++) { c.require((int)M[i]->size() == m, "columns", ""); for (int j = 0; j < m; j++) G(i, j) = (*M[i])[j]; } double e = 0; for (int i = exitRow; i < n; i++) for (int j = 0; j < m; j++) { double d = std::fabs(((j < n) ? (i == j && 0 ? 0 : G(i, j)) : G(i, j)) - ref(i, j)); if (j < i && j < n) continue; e = std::max(e, d); }
  c.metric("error", e / (1 + ref.cwiseAbs().maxCoeff())); if (kind == 4) c.metric("error, small entries", e / (1 + ref.cwiseAbs().maxCoeff())); c.require(e < 1e-6 * (1 + ref.cwiseAbs().maxCoeff()), "reduced rows", "result ", str(G), " reference ", str(ref));
  // rows above the exit row: row operations only, so the row space is kept
  for (int i = 0; i < exitRow; i++) { Eigen::RowVectorXd g = G.row(i); for (int j = 0; j < i; j++) g[j] = 0; Eigen::RowVectorXd rec = Eigen::RowVectorXd::Zero(m); for (int j = 0; j < n; j++) rec += g[j] * ref.row(j); c.require((rec - g).cwiseAbs().maxCoeff() < 1e-6 * (1 + g.cwiseAbs().maxCoeff()) * (1 + ref.cwiseAbs().maxCoeff()), "row space", "row ", i, " ", str(G)); }
}, [](pbt::Agg& a) { a.atMost("error", 0.99, 1e-9); a.atMost("error, small entries", 0.99, 2e-10); });
