#include "problems.hpp"
#include "algos.hpp"
#include <malloc.h>
#include <cstring>
#include <thread>
const char* pbt::RULE = "histories of 3-14 calls of all algorithms on 1-4 adapters, and of 3-16 calls of all methods of every problem type, with changing priors and index sets; every call is repeated on a fresh copy of the data with the same prior and random seed, after overwriting stale stack and heap memory with another pattern, and must give the same bits; user data, index lists and read-only priors are compared bit by bit after every call. Calls on distinct adapters from 2-4 threads are compared with the same calls one after another. Non-trivial: every completed history";
// stale memory gets a known pattern, so that results which depend on it differ between the runs
__attribute__((noinline)) static void scribble(int b) { mallopt(M_PERTURB, b & 255); char a[1 << 19]; memset(a, b, sizeof a); asm volatile("" :: "r"(a) : "memory"); }
static bool same(const std::vector<double>& x, const std::vector<double>& y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!(x[i] == y[i] || (std::isnan(x[i]) && std::isnan(y[i])))) return false; return true; }
static std::string diff(const std::vector<double>& x, const std::vector<double>& y) { std::ostringstream o; o.precision(17); o << x.size() << " / " << y.size() << " values"; for (size_t i = 0; i < x.size() && i < y.size(); i++) if (!(x[i] == y[i] || (std::isnan(x[i]) && std::isnan(y[i])))) { o << "; value " << i << ": " << x[i] << " / " << y[i]; break; } return o.str(); }
static bool samePose(const M34& a, const M34& b) { for (int k = 0; k < 12; k++) if (!(a(k) == b(k))) return false; return true; }
static M34 somePose(Src& s) { M3 R = anyRot(s); if (rotErr(R, M3::Identity()) > 3.0) R = M3::Identity(); return pose(R, vecIn(s, 3)); } // half turns have no Cayley parameters
// --- algorithms --------------------------------------------------------------------------
struct Actor { Case k; int base; std::unique_ptr<Instance> in; std::vector<double> data; int n; };
struct Call { int who, alg, how, sd; Ix ix; bool flag; M34 prior; Out out; std::string name() const { return algName[alg]; } };
static Actor actor(Ctx& c) {
  Src& s = c.s; Actor a; a.base = s.range(0, ALGS - 1); int n = algRel(a.base) ? s.range(17, 22) : s.range(6, 14); a.k = make(c, a.base, n, s.chance(0.5)); if (s.chance(0.35)) { std::string w = degenerate(a.k.d, s); c.label(w.substr(0, w.find(','))); c.note(w); } a.in = instance(a.base, a.k.d, a.k.variant); a.data = a.in->data(); a.n = n; return a;
}
static bool fits(const Actor& a, int alg) { bool r = rig(a.k); if (algAbs(a.base) != algAbs(alg) || algCloud(a.base) != algCloud(alg)) return false; return r || !(algRigOnly(alg) || alg == A_GPNP); }
static Call someCall(Src& s, std::vector<Actor>& A, bool random) {
  Call q; q.who = s.range(0, (int)A.size() - 1); Actor& a = A[q.who]; int tries = 0; do q.alg = s.chance(0.4) ? a.base : s.range(0, ALGS - 1); while ((!fits(a, q.alg) || (!random && algRand(q.alg))) && ++tries < 100); if (tries == 100) q.alg = algAbs(a.base) ? (int)A_P2P : algCloud(a.base) ? (int)A_ARUN : (int)A_TWOROT;
  q.how = LIST; if (s.chance(0.4)) q.how = algArgs(q.alg) ? ARGS : algAll(q.alg) && algMax(q.alg) == 99 ? ALL : LIST; if (algRand(q.alg) && s.chance(0.3)) q.how = q.how == ALL ? ALL_R : LIST_R;
  int m = algMin(q.alg), M = std::min(a.n, algMax(q.alg)); if (q.alg == A_ROT) m = 3; q.ix = shuffled(s, a.n, s.range(m, std::max(m, M))); if (q.how == ALL || q.how == ALL_R) q.ix = iota(a.n); q.flag = s.chance(0.7); q.sd = s.range(1, 1 << 20); return q;
}
static Out go(Instance& in, const Call& q) { srand(q.sd); return in.run(q.alg, q.how, q.ix, q.flag); }
static void calls(Ctx& c) {
  Src& s = c.s; std::vector<Actor> A; int m = s.range(1, 4); for (int i = 0; i < m; i++) A.push_back(actor(c)); int H = s.range(3, 14); std::vector<Call> log; int b = s.range(0, 255);
  auto repeat = [&](const Call& q, const char* when) { auto in = instance(A[q.who].base, A[q.who].k.d, A[q.who].k.variant); in->setPrior(q.prior); scribble(b ^ 0x7f); Out o = go(*in, q); mallopt(M_PERTURB, 0); c.require(sameBits(o, q.out), "result depends on the history: " + q.name(), when, ": ", diff(o.v, q.out.v)); };
  for (int h = 0; h < H; h++) {
    Call q = someCall(s, A, true); Actor& a = A[q.who]; if (s.chance(0.3)) a.in->setPrior(s.chance(0.5) ? a.k.d.prior : somePose(s)); q.prior = a.in->prior(); Ix keep = q.ix; scribble(b); c.note("call " + q.name() + " prior " + str(q.prior) + " on " + std::to_string(q.who) + " how " + std::to_string(q.how) + " n " + std::to_string(q.ix.size())); q.out = go(*a.in, q); mallopt(M_PERTURB, 0); c.label(algName[q.alg]);
    c.require(q.ix == keep, "index list changed", q.name()); for (auto& x : A) c.require(same(x.in->data(), x.data), "user data changed", q.name(), ": ", diff(x.in->data(), x.data));
    if (q.alg == A_ROPT || q.alg == A_COPT) a.in->setPrior(q.prior); else c.require(samePose(a.in->prior(), q.prior), "prior changed", q.name(), ": ", str(a.in->prior()), " was ", str(q.prior));
    if (s.chance(0.3)) { scribble(b ^ 0x33); Out o = go(*a.in, q); mallopt(M_PERTURB, 0); if (q.alg == A_ROPT || q.alg == A_COPT) a.in->setPrior(q.prior); c.require(sameBits(o, q.out), "result depends on the history: " + q.name(), "repeated: ", diff(o.v, q.out.v)); }
    if (s.chance(0.3)) repeat(q, "at once"); log.push_back(q);
  }
  for (int i = (int)log.size() - 1; i >= 0; i--) repeat(log[i], "afterwards"); c.nontrivial();
}
// --- distinct adapters in parallel ----------------------------------------------------------
static void threads(Ctx& c) {
  Src& s = c.s; int T = s.range(2, 4), reps = s.range(4, 20); std::vector<Actor> A; std::vector<Call> q; int one = s.chance(0.6) ? s.range(0, ALGS - 1) : -1; if (one >= 0 && algRand(one)) one = A_EPNP;
  for (int t = 0; t < T; t++) { std::vector<Actor> l; int tries = 0; do { l.clear(); l.push_back(actor(c)); } while (one >= 0 && !fits(l[0], one) && ++tries < 100); if (tries == 100) c.discard(); Call k = someCall(s, l, false); if (one >= 0) { k.alg = one; k.how = LIST; k.ix = shuffled(s, l[0].n, std::min(l[0].n, std::max(one == A_ROT ? 3 : 0, std::min(algMin(one) + 2, algMax(one))))); } k.who = t; k.prior = l[0].in->prior(); A.push_back(std::move(l[0])); k.out = go(*A[t].in, k); A[t].in->setPrior(k.prior); c.label(algName[k.alg]); q.push_back(k); }
  std::vector<std::vector<Out>> res(T); std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back([&, t] { for (int r = 0; r < reps; r++) { res[t].push_back(A[t].in->run(q[t].alg, q[t].how, q[t].ix, q[t].flag)); A[t].in->setPrior(q[t].prior); } }); for (auto& x : th) x.join();
  for (int t = 0; t < T; t++) for (auto& o : res[t]) c.require(sameBits(o, q[t].out), "parallel call differs: " + q[t].name(), "", diff(o.v, q[t].out.v)); c.nontrivial();
}
// --- problems ---------------------------------------------------------------------------------
enum Op { HYP, SCORES, ALLSCORES, COUNT, SELECT, OPTIMISE, DRAW, ROBUST, OPS };
static const char* opName[OPS] = {"hypothesis", "scores", "all scores", "count", "select", "optimise", "draw", "robust estimation"};
struct Step { int op, sd; Ix ix; M34 m, prior; double thr; Ix set; std::vector<double> out; };
static void add(std::vector<double>& v, const M34& m) { for (int k = 0; k < 12; k++) v.push_back(m(k)); }
static std::vector<double> exec(Problem& p, const Step& q, bool lmeds) {
  srand(q.sd); std::vector<double> v; switch (q.op) {
    case HYP: { M34 m = M34::Zero(); bool ok = p.hypothesis(q.ix, m); v.push_back(ok); if (ok) add(v, m); break; } case SCORES: v = p.scores(q.m, q.ix); break; case ALLSCORES: v = p.allScores(q.m); break; case COUNT: v.push_back(p.count(q.m, q.thr)); break;
    case SELECT: for (int i : p.select(q.m, q.thr)) v.push_back(i); break; case OPTIMISE: add(v, p.optimise(q.ix, q.m)); break;
    case DRAW: p.setIndices(q.set); p.reseed(q.sd); for (int i : p.draw()) v.push_back(i); break; // drawing permutes the pool: start from the same one
    case ROBUST: { p.setIndices(q.set); p.reseed(q.sd); Result r = p.robust(lmeds, 12, q.thr, 0.99); v.push_back(r.ok); v.push_back(r.iterations); if (r.ok) { add(v, r.model); for (int i : r.sample) v.push_back(i); for (int i : r.inliers) v.push_back(i); } break; } }
  return v;
}
// data without a solution: unrelated and equal viewing rays, one correspondence many times, points on a line
static void spoil(Ctx& c, int kind, ProblemData& d, int how) {
  Src& s = c.s; c.label(how == 1 ? "unrelated rays" : how == 2 ? "repeated correspondence" : "points on a line"); int n = isAbs(kind) ? d.a.n() : d.r.n(); double share = s.chance(0.5) ? 1 : 0.5;
  points_t& X = isAbs(kind) ? d.a.p : d.r.X; V3 a = X[0], u = X[1] - X[0];
  if (how > 1) { for (int i = 0; i < n; i++) if (s.chance(share)) X[i] = how == 2 ? a : V3(a + u * s.from(-0.5, 1.5)); if (isAbs(kind)) d.a.measure(); else if (kind != CLOUD) d.r.measure(); else { d.p1.clear(); d.p2.clear(); for (auto& x : X) { d.p1.push_back(x); d.p2.push_back(d.r.R.transpose() * (x - d.r.t)); } } return; }
  V3 same = unitVec(s); bool eq = s.chance(0.5); for (int i = 0; i < n; i++) if (s.chance(share)) { auto b = [&] { return eq ? same : unitVec(s); }; if (kind == CLOUD) { d.p1[i] = b(); d.p2[i] = b(); } else if (isAbs(kind)) d.a.f[i] = b(); else { d.r.f1[i] = b(); d.r.f2[i] = b(); } }
}
static void problems(Ctx& c, int kind) {
  Src& s = c.s; c.label(kindName[kind]); int n = isMulti(kind) ? 40 : s.range(20, 32); GenOpt g; g.n = n; g.maxRot = 0.5; ProblemData d = genData(c, kind, g); double noise = s.chance(0.5) ? 0 : s.logreal(1e-4, 1e-2); if (noise > 0) { d.a.noise(s, noise); if (d.r.n()) d.r.noise(s, noise); for (auto& x : d.p1) x += rv(s, noise); }
  int deg = s.chance(0.25) ? s.range(1, 3) : 0; if (deg) spoil(c, kind, d, deg);
  auto p = makeProblem(kind, d); M34 T = truthOf(kind, d), near = pose(T.leftCols<3>() * rotUpTo(s, 0.05), T.col(3)); p->setPrior(near); Ix set = p->indices(); std::vector<double> data = p->data(); int b = s.range(0, 255); M34 last = T; int H = s.range(3, 16); std::vector<Step> log; bool lmeds = !isMulti(kind) && s.chance(0.3);
  auto repeat = [&](const Step& q, const char* when) { auto f = makeProblem(kind, d); f->setPrior(q.prior); f->setIndices(q.set); scribble(b ^ 0x7f); auto v = exec(*f, q, lmeds); mallopt(M_PERTURB, 0); c.require(same(v, q.out), "result depends on the history", kindName[kind], " ", opName[q.op], " ", when, ": ", diff(v, q.out)); };
  for (int h = 0; h < H; h++) {
    if (s.chance(0.15)) p->setPrior(s.chance(0.5) ? near : somePose(s)); if (s.chance(0.15)) { set = p->grouped(shuffled(s, n, s.range(isMulti(kind) ? 36 : 18, n))); p->setIndices(set); }
    Step q; q.op = s.pick(std::vector<int>{HYP, HYP, HYP, SCORES, ALLSCORES, COUNT, SELECT, OPTIMISE, DRAW, ROBUST}); q.sd = s.range(1, 1 << 20); q.m = s.chance(0.4) ? somePose(s) : s.chance(0.5) ? last : near; q.thr = s.logreal(1e-6, 0.1); q.set = set; q.prior = p->prior();
    if (q.op == HYP) { p->setIndices(set); p->reseed(q.sd); q.ix = p->draw(); if (q.ix.empty()) continue; } else q.ix = q.op == SCORES && s.chance(0.08) ? Ix() : p->grouped(shuffled(s, n, s.range(8, n)));
    Ix keep = q.ix; scribble(b); q.out = exec(*p, q, lmeds); mallopt(M_PERTURB, 0); c.note(opName[q.op]);
    if (q.op == HYP && q.out[0] && s.chance(0.7)) { for (int k = 0; k < 12; k++) last(k) = q.out[1 + k]; if (!finite(last)) last = T; }
    c.require(q.ix == keep, "index list changed", kindName[kind], " ", opName[q.op]); c.require(same(p->data(), data), "user data changed", kindName[kind], " ", opName[q.op]); c.require(p->indices() == set, "index set changed", kindName[kind], " ", opName[q.op]);
    if (q.op == OPTIMISE) p->setPrior(q.prior); else c.require(samePose(p->prior(), q.prior), "prior changed", kindName[kind], " ", opName[q.op], ": ", str(p->prior()), " was ", str(q.prior));
    if (s.chance(0.3)) repeat(q, "at once"); log.push_back(q);
  }
  for (auto& q : log) repeat(q, "afterwards"); c.nontrivial();
}
TEST("calls", 6000, 120000, calls, [](pbt::Agg&) {});
TEST("threads", 1500, 20000, threads, [](pbt::Agg&) {});
static struct Reg23 { Reg23() { static std::vector<std::string> names; names.reserve(KINDS); for (int k = 0; k < KINDS; k++) { names.push_back(std::string("problem ") + kindName[k]); bool slow = k == NSIX || k == MSIX || k == NGE || k == MGE; pbt::Reg(names.back().c_str(), slow ? 150 : 500, slow ? 2000 : 8000, [k](Ctx& c) { problems(c, k); }, [](pbt::Agg&) {}); } } } reg23;
