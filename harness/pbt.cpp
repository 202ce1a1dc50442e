#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <stdlib.h>
#include <algorithm>
#include <set>
#include <chrono>
#include <fstream>
#include <iostream>

namespace pbt {
std::vector<Test>& tests() { static std::vector<Test> t; return t; }
static std::string num(double v) { std::ostringstream o; o.precision(6); o << v; return o.str(); }
void Agg::atMost(const std::string& m, double q, double bound) {
  double v = quantile(m, q);
  require(!metrics[m].empty() && v <= bound, "quantile:" + m, "quantile " + num(q) + " of " + m + " over " + num(metrics[m].size()) + " cases is " + num(v) + ", bound " + num(bound));
}
void Agg::softAtMost(const std::string& m, double frac) {
  double v = badfrac(m);
  require(softs[m].second && v <= frac, "rate:" + m, "violated in " + num(softs[m].first) + " of " + num(softs[m].second) + " cases, allowed fraction " + num(frac));
}
void Agg::seen(const std::string& m, size_t n) {
  size_t k = std::max((size_t)metrics[m].size(), (size_t)softs[m].second);
  require(k >= n, "vacuous:" + m, "only " + num(k) + " observations of " + m + ", expected at least " + num(n));
}
}
using namespace pbt;
typedef std::vector<uint64_t> Choices;

static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull; x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31; return x;
}
static uint64_t hashstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static uint64_t hashch(const Choices& c) { uint64_t h = 7; for (auto v : c) h = mix(h, v); return h; }
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
static std::string jnum(double v) { if (std::isnan(v)) return "\"nan\""; if (std::isinf(v)) return "\"inf\""; return num(v); }

struct Outcome { int kind = 0; /*0 ok 1 discard 2 fail 3 crash 4 hang*/ std::string key, msg; bool nontriv = false; std::vector<std::pair<std::string, double>> metrics; std::vector<std::pair<std::string, bool>> softs; std::vector<std::string> labels; std::string notes; Choices rec; };

static Outcome runCase(const Test& t, Src& s, bool verbose) {
  Outcome o; Ctx c(s); c.verbose = verbose;
  srand(1); // the library uses rand(); every case starts from the same state
  try { t.fn(c); } catch (Discard&) { o.kind = 1; } catch (Failure& f) { o.kind = 2; o.key = std::string(t.name) + "/" + f.key; o.msg = f.msg; }
  catch (std::exception& e) { o.kind = 2; o.key = std::string(t.name) + "/exception"; o.msg = e.what(); }
  o.nontriv = c.nontriv && o.kind != 1; o.metrics.swap(c.metrics); o.softs.swap(c.softs); o.labels.swap(c.labels); o.notes = c.notes.str(); o.rec = s.rec;
  return o;
}

// ---- serialisation over a file ------------------------------------------------
static void putu(std::string& b, uint64_t v) { b.append((char*)&v, 8); }
static void puts_(std::string& b, const std::string& s) { putu(b, s.size()); b += s; }
static void putd(std::string& b, double v) { b.append((char*)&v, 8); }
struct Rd { const std::string& b; size_t p = 0; bool ok(size_t n) { return p + n <= b.size(); }
  uint64_t u() { uint64_t v; memcpy(&v, &b[p], 8); p += 8; return v; } double d() { double v; memcpy(&v, &b[p], 8); p += 8; return v; }
  std::string s() { uint64_t n = u(); std::string r = b.substr(p, n); p += n; return r; } };
static std::string ser(uint64_t i, const Outcome& o, bool full) {
  std::string b; putu(b, i); putu(b, o.kind); putu(b, o.nontriv); putu(b, hashch(o.rec)); puts_(b, o.key); puts_(b, o.msg);
  putu(b, o.metrics.size()); for (auto& m : o.metrics) { puts_(b, m.first); putd(b, m.second); }
  putu(b, o.softs.size()); for (auto& m : o.softs) { puts_(b, m.first); putu(b, m.second); }
  putu(b, o.labels.size()); for (auto& m : o.labels) puts_(b, m);
  puts_(b, full ? o.notes : ""); putu(b, full ? o.rec.size() : 0); if (full) for (auto v : o.rec) putu(b, v);
  std::string r; puts_(r, b); return r;
}
static uint64_t de(const std::string& b, Outcome& o, uint64_t& h) {
  Rd r{b}; uint64_t i = r.u(); o.kind = r.u(); o.nontriv = r.u(); h = r.u(); o.key = r.s(); o.msg = r.s();
  for (uint64_t n = r.u(); n; n--) { auto s = r.s(); o.metrics.push_back({s, r.d()}); }
  for (uint64_t n = r.u(); n; n--) { auto s = r.s(); o.softs.push_back({s, r.u() != 0}); }
  for (uint64_t n = r.u(); n; n--) o.labels.push_back(r.s());
  o.notes = r.s(); for (uint64_t n = r.u(); n; n--) o.rec.push_back(r.u());
  return i;
}
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

static std::string TMP; // scratch directory of this run
static int HANG = 25;
static void quietStd(const std::string& err) {
  int n = open("/dev/null", O_WRONLY); dup2(n, 1);
  int e = err.empty() ? n : open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2);
}
// run one case in a child process; crash and hang become outcomes
static Outcome isolated(const Test& t, const Choices& ch, bool verbose) {
  static int ctr = 0; std::string out = TMP + "/iso" + std::to_string(ctr), err = out + ".err"; ctr++;
  pid_t p = fork();
  if (p == 0) {
    quietStd(err); alarm(HANG);
    Src s(ch); Outcome o = runCase(t, s, verbose); std::string b = ser(0, o, true);
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (write(fd, b.data(), b.size()) < 0) {} close(fd); _exit(0);
  }
  int st; waitpid(p, &st, 0); Outcome o; 
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { std::string b = slurp(out); Rd r{b}; std::string in = r.s(); uint64_t h; de(in, o, h); }
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { o.kind = 4; o.key = std::string(t.name) + "/hang"; o.msg = "the case did not finish"; }
  else { o.kind = 3; o.key = std::string(t.name) + "/crash"; std::string e = slurp(err); o.msg = (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ": " + (e.size() > 1500 ? e.substr(0, 1500) : e); }
  unlink(out.c_str()); unlink(err.c_str());
  return o;
}
static Choices shrink(const Test& t, Choices best, const std::string& key, double budget) {
  auto t0 = std::chrono::steady_clock::now(); int n = 0;
  auto left = [&] { return n < 1500 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget; };
  auto tryit = [&](const Choices& c) { n++; Outcome o = isolated(t, c, false); if (o.kind >= 2 && o.key == key) { best = c; if (o.rec.size() && o.rec.size() < best.size()) best = o.rec; return true; } return false; };
  bool progress = true;
  while (progress && left()) {
    progress = false;
    for (size_t k = best.size(); k >= 1 && left(); k /= 2)          // delete chunks
      for (size_t i = 0; i + k <= best.size() && left();) { Choices c(best); c.erase(c.begin() + i, c.begin() + i + k); if (tryit(c)) progress = true; else i += k; }
    for (size_t k = best.size(); k >= 1 && left(); k /= 2)          // zero chunks
      for (size_t i = 0; i + k <= best.size() && left(); i += k) { Choices c(best); bool nz = false; for (size_t j = i; j < i + k; j++) { nz |= c[j] != 0; c[j] = 0; } if (nz && tryit(c)) progress = true; }
    for (size_t i = 0; i < best.size() && left(); i++) {            // lower single choices
      for (uint64_t sh : {24, 8, 1}) { if (!best[i] || i >= best.size()) break; Choices c(best); c[i] >>= sh; if (c[i] != best[i] && tryit(c)) progress = true; }
    }
  }
  return best;
}

int main(int argc, char** argv) {
#if !defined(__SANITIZE_ADDRESS__) && !(defined(__has_feature) && __has_feature(address_sanitizer))
  // code that allocates without end must fail in its own process and not exhaust the machine
  rlimit rl; rl.rlim_cur = rl.rlim_max = rlim_t(2500) << 20; setrlimit(RLIMIT_AS, &rl);
#endif
  std::map<std::string, std::string> a; 
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  std::string prop = a["--prop"], tier = a.count("--tier") ? a["--tier"] : "quick", only = a["--only"];
  uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
  int W = a.count("--jobs") ? atoi(a["--jobs"].c_str()) : 8;
  double scale = a.count("--scale") ? atof(a["--scale"].c_str()) : 1.0;
  if (a.count("--hang")) HANG = atoi(a["--hang"].c_str());
  std::string rdir = a.count("--replaydir") ? a["--replaydir"] : "/tmp";
  bool verboseStats = a.count("--stats") > 0;
  char tmpl[] = "/tmp/pbtXXXXXX"; TMP = mkdtemp(tmpl);
  struct Rm { ~Rm() { if (TMP.size() > 8) { std::string c = "rm -rf '" + TMP + "'"; if (system(c.c_str())) {} } } } rm;
  std::map<std::string, std::string> known; // key -> text
  if (a.count("--known")) { std::ifstream f(a["--known"]); std::string l; while (std::getline(f, l)) { std::string pre = "finding: property=" + prop + " key="; if (l.compare(0, pre.size(), pre) == 0) { std::string r = l.substr(pre.size()); size_t sp = r.find(' '); known[r.substr(0, sp)] = sp == std::string::npos ? "" : r.substr(sp + 1); } } }

  if (a.count("--replay")) { // file: line 1 "test NAME", line 2 "choices n c1 c2.." or "batch seed n"
    std::ifstream f(a["--replay"]); std::string name, kind; std::getline(f, name); name = name.size() > 5 ? name.substr(5) : ""; f >> kind; // line 1: "test NAME"

    for (auto& t : tests()) if (name == t.name) {
      if (kind == "choices") {
        size_t n; f >> n; Choices c(n); for (auto& v : c) f >> v;
        Outcome o = isolated(t, c, true); printf("%s\n%s", t.name, o.notes.c_str());
        if (o.kind >= 2) { printf("FAILS %s: %s\nVIOLATION property=%s replay=%s\n", o.key.c_str(), o.msg.c_str(), prop.c_str(), a["--replay"].c_str()); return 1; }
        printf(o.kind == 1 ? "discarded\n" : "passes\n"); return 0;
      }
      uint64_t n; double sc; f >> seed >> n >> sc; only = name; scale = sc; tier = n ? "thorough" : "quick";
    }
    a.erase("--replay");
  }
  auto t0 = std::chrono::steady_clock::now();
  auto secs = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  uint64_t evals = 0, nontriv = 0, discards = 0; int violations = 0; std::map<std::string, uint64_t> knownHits;
  std::string jtests, samples; std::set<uint64_t> seenAll; int nsamp = 0;
  double shrinkSpent = 0; int hangsTotal = 0; struct Viol { std::string key, msg, path; }; std::vector<Viol> viols;
  for (size_t ti = 0; ti < tests().size(); ti++) {
    const Test& t = tests()[ti];
    if (!only.empty() && only != t.name) continue;
    double tt0 = secs();
    if (tier != "thorough" && (tt0 > 560 || (hangsTotal && viols.size() && tt0 > 100) || (viols.size() && tt0 > 300))) { printf("NOTE time budget reached, %s and later tests not run\n", t.name); break; }
    size_t N = (size_t)std::ceil((tier == "thorough" ? t.thorough : t.quick) * scale);
    struct Sh { volatile int64_t cur, started; }; 
    Sh* sh = (Sh*)mmap(0, sizeof(Sh) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(W, 0); std::vector<size_t> nextStart(W); std::vector<int> restarts(W, 0); std::vector<bool> done(W, false);
    auto caseSeed = [&](size_t i) { return mix(mix(seed, hashstr(t.name)), i); };
    if (a.count("--case")) { size_t i = strtoull(a["--case"].c_str(), 0, 10); Src s(caseSeed(i)); Outcome o = runCase(t, s, true); printf("%s%s: %s\n", o.notes.c_str(), o.key.c_str(), o.msg.c_str()); continue; }
    auto spawn = [&](int w, size_t start) {
      sh[w].cur = -1; sh[w].started = time(0); pid_t p = fork();
      if (p == 0) {
        quietStd(""); std::string fn = TMP + "/w" + std::to_string(ti) + "_" + std::to_string(w); int fd = open(fn.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); std::string buf; int nfail = 0;
        for (size_t i = start; i < N; i += W) {
          // flush what is finished before running the next case so that a crash loses nothing
          if (buf.size() > (1 << 16) ) { if (write(fd, buf.data(), buf.size()) < 0) {} buf.clear(); }
          sh[w].cur = (int64_t)i; sh[w].started = time(0);
          Src s(caseSeed(i)); Outcome o = runCase(t, s, i < 2); buf += ser(i, o, (o.kind == 2 && nfail < 20) || i < 2); if (o.kind == 2) nfail++;
        }
        sh[w].cur = -2; if (write(fd, buf.data(), buf.size()) < 0) {} close(fd); _exit(0);
      }
      pid[w] = p;
    };
    // a crashing worker loses its unflushed buffer: those cases are simply run again one by one
    std::vector<Outcome> outs; std::vector<std::pair<size_t, Outcome>> crashed;
    for (int w = 0; w < W; w++) { nextStart[w] = w; spawn(w, w); }
    int alive = W, hangs = 0; bool cut = false;
    while (alive) {
      bool any = false;
      for (int w = 0; w < W; w++) if (pid[w]) {
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
        bool hang = false;
        if (r == 0) { if (hangs >= 4 || hangsTotal >= 8) { cut = true; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; alive--; any = true; continue; } if (sh[w].cur >= 0 && time(0) - sh[w].started > HANG) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hang = true; } else continue; }
        any = true; pid[w] = 0; if (hang) { hangs++; hangsTotal++; }
        if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
        size_t c = sh[w].cur >= 0 ? (size_t)sh[w].cur : nextStart[w];
        Outcome o; o.kind = hang ? 4 : 3; o.key = std::string(t.name) + (hang ? "/hang" : "/crash"); crashed.push_back({c, o});
        if (++restarts[w] > (hang ? 2 : 10)) { alive--; continue; }
        nextStart[w] = c + W; if (nextStart[w] < N) spawn(w, nextStart[w]); else alive--;
      }
      if (!any) usleep(2000);
    }
    munmap(sh, sizeof(Sh) * W);
    // collect
    Agg agg; std::map<std::string, uint64_t> labels; uint64_t ev = 0, nt = 0, di = 0; std::map<std::string, std::vector<std::pair<size_t, Choices>>> fails; std::map<std::string, uint64_t> failCount; std::map<std::string, std::string> failMsg; std::set<uint64_t> seen;
    for (int w = 0; w < W; w++) {
      std::string fn = TMP + "/w" + std::to_string(ti) + "_" + std::to_string(w), b = slurp(fn); unlink(fn.c_str()); Rd r{b};
      while (r.ok(8)) {
        std::string in = r.s(); Outcome o; uint64_t h; size_t i = de(in, o, h); ev++;
        if (o.kind == 1) di++;
        for (auto& m : o.metrics) agg.metrics[m.first].push_back(std::isnan(m.second) ? INFINITY : m.second);
        for (auto& m : o.softs) { auto& p = agg.softs[m.first]; p.second++; if (!m.second) p.first++; }
        for (auto& l : o.labels) labels[l]++;
        if (o.nontriv && seen.insert(h).second) nt++;
        if (o.kind == 2) { failCount[o.key]++; failMsg[o.key] = o.msg; if (o.rec.size()) fails[o.key].push_back({i, o.rec}); }
        if (i < 2 && nsamp < 24 && o.kind == 0) { samples += (nsamp++ ? "," : "") + std::string("{\"test\":") + jstr(t.name) + ",\"case\":" + std::to_string(i) + ",\"what\":" + jstr(o.notes.substr(0, 700)) + ",\"choices\":" + std::to_string(o.rec.size()) + "}"; }
      }
    }
    for (auto& c : crashed) { Src s(caseSeed(c.first)); failCount[c.second.key]++; ev++; fails[c.second.key].push_back({c.first, Choices()}); }
    for (auto& m : agg.metrics) std::sort(m.second.begin(), m.second.end());
    if (t.fin && !cut) t.fin(agg);
    for (auto it = agg.metrics.begin(); it != agg.metrics.end();) if (it->second.empty()) it = agg.metrics.erase(it); else ++it;
    evals += ev; nontriv += nt; discards += di;
    // individual failures
    for (auto& kv : fails) {
      const std::string& key = kv.first;
      if (known.count(key)) { knownHits[key] += failCount[key]; continue; }
      bool confirmed = false;
      auto& v = kv.second; std::sort(v.begin(), v.end(), [](const std::pair<size_t, Choices>& x, const std::pair<size_t, Choices>& y) { return x.first < y.first; });
      for (size_t k = 0; k < v.size() && k < 3 && !confirmed; k++) {
        Choices ch = v[k].second;
        if (ch.empty()) { // a crash or hang: the choices were lost with the worker
          // Src draws rng() % n, so the raw generator output replays the same case
          Src q(caseSeed(v[k].first)); for (int z = 0; z < 20000; z++) ch.push_back(q.rng());
        }
        int rep = 0; Outcome o;
        for (int q = 0; q < 3; q++) { o = isolated(t, ch, false); if (o.kind >= 2 && o.key == key) rep++; else break; if (o.kind == 4) { rep = 3; break; } }
        if (rep < 3) continue;
        confirmed = true;
        double sh0 = secs(); Choices sm = o.kind == 4 ? ch : shrink(t, ch, key, std::min(15.0, 60.0 - shrinkSpent)); shrinkSpent += secs() - sh0;
        Outcome f = o.kind == 4 ? o : isolated(t, sm, true); if (!(f.kind >= 2 && f.key == key)) { sm = ch; f = isolated(t, sm, true); }
        std::string path = rdir + "/" + prop + "-" + std::to_string(hashstr(key) % 100000000) + ".txt";
        std::ofstream rf(path); rf << "test " << t.name << "\nchoices " << sm.size(); for (auto c : sm) rf << " " << c; rf << "\n# key " << key << "\n# case " << v[k].first << " seed " << seed << " (failed in " << failCount[key] << " of " << ev << " cases)\n# " << f.msg << "\n# " << f.notes << "\n";
        viols.push_back({key, f.msg, path});
      }
      if (!confirmed) printf("NOTE unreproducible failure ignored: %s (case %zu: %s)\n", key.c_str(), v[0].first, failMsg[key].c_str());
    }
    for (auto& f : agg.fails) {
      std::string key = std::string(t.name) + "/" + f.key;
      if (known.count(key)) { knownHits[key]++; continue; }
      std::string path = rdir + "/" + prop + "-" + std::to_string(hashstr(key) % 100000000) + ".txt";
      std::ofstream rf(path); rf << "test " << t.name << "\nbatch " << seed << " " << (tier == "thorough") << " " << scale << "\n# " << key << ": " << f.msg << "\n";
      viols.push_back({key, f.msg, path});
    }
    // evidence of this test
    std::string j = std::string(jtests.empty() ? "" : ",") + "{\"test\":" + jstr(t.name) + ",\"cases\":" + std::to_string(ev) + ",\"distinct_nontrivial\":" + std::to_string(nt) + ",\"discarded\":" + std::to_string(di);
    j += ",\"labels\":{"; bool first = true; for (auto& l : labels) { j += (first ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second); first = false; } j += "}";
    j += ",\"metrics\":{"; first = true; for (auto& m : agg.metrics) { j += (first ? "" : ",") + jstr(m.first) + ":{\"n\":" + std::to_string(m.second.size()) + ",\"q50\":" + jnum(agg.quantile(m.first, .5)) + ",\"q90\":" + jnum(agg.quantile(m.first, .9)) + ",\"q99\":" + jnum(agg.quantile(m.first, .99)) + ",\"max\":" + jnum(m.second.back()) + "}"; first = false; } j += "}";
    j += ",\"soft\":{"; first = true; for (auto& m : agg.softs) { j += (first ? "" : ",") + jstr(m.first) + ":{\"bad\":" + std::to_string(m.second.first) + ",\"of\":" + std::to_string(m.second.second) + "}"; first = false; } j += "}}";
    jtests += j;
    if (verboseStats) { printf("%-34s %7llu cases %7llu nontrivial %6llu discarded %6.1fs\n", t.name, (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)di, secs() - tt0);
      for (auto& l : labels) printf("    label %-30s %llu\n", l.first.c_str(), (unsigned long long)l.second);
      for (auto& m : agg.metrics) printf("    metric %-28s n=%zu q50=%.3g q90=%.3g q99=%.3g q999=%.3g max=%.3g\n", m.first.c_str(), m.second.size(), agg.quantile(m.first, .5), agg.quantile(m.first, .9), agg.quantile(m.first, .99), agg.quantile(m.first, .999), m.second.back());
      for (auto& m : agg.softs) printf("    soft %-30s bad %llu of %llu\n", m.first.c_str(), (unsigned long long)m.second.first, (unsigned long long)m.second.second);
      for (auto& f : failCount) printf("    FAIL %s x%llu\n", f.first.c_str(), (unsigned long long)f.second); fflush(stdout); }
  }
  for (auto& k : known) {
    if (knownHits.count(k.first)) printf("KNOWN-FINDING: property=%s %s %s (%llu cases)\n", prop.c_str(), k.first.c_str(), k.second.c_str(), (unsigned long long)knownHits[k.first]);
    else printf("NOTE known finding not reproduced in this run: %s\n", k.first.c_str());
  }
  int shown = 0;
  for (auto& v : viols) { violations++; if (shown++ < 8) printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.key.c_str(), v.msg.substr(0, 2000).c_str(), prop.c_str(), v.path.c_str()); }
  if (a.count("--evidence")) {
    std::ofstream e(a["--evidence"]);
    e << "{\"property\":" << jstr(prop) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << nontriv << ",\"discarded\":" << discards << ",\"rule\":" << jstr(RULE) << ",\"samples\":[" << samples << "],\"tests\":[" << jtests << "]},\"wall_s\":" << num(secs()) << ",\"violations\":" << violations << "}\n";
  }
  printf("%s %s seed=%llu: %llu cases, %llu distinct non-trivial, %llu discarded, %d violations, %.1fs\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)discards, violations, secs());
  return violations ? 1 : 0;
}
