// Run protocol shared by all simulators. Every run is executed in a forked child: crashes, hangs and memory errors are
// attributed to their run, and no run sees the memory another one left behind.
#pragma once
#include <fcntl.h>
#include <iostream>
#include <signal.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include "trace.hpp"
#include "alloc.hpp"

Trace generate(const std::string& profile, uint64_t seed, ll index);   // provided by each simulator
Result execute(const Trace& t);

namespace proto {
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

inline void putResult(std::ostream& o, const Result& r) {
  o << (int)r.violation << ' ' << esc(r.cls) << ' ' << esc(r.detail) << ' ' << r.op << ' ' << r.hash << ' ' << r.sig << ' ' << (int)r.ambiguous << ' ' << (int)r.nontrivial << ' ' << r.calls << ' ' << r.msgs << ' ' << r.probes.size();
  for (auto& p : r.probes) o << ' ' << esc(p.first) << ' ' << p.second;
  o << ' ' << r.states.size(); for (auto s : r.states) o << ' ' << s;
  o << " done\n";
}
inline bool getResult(std::istream& i, Result& r) {
  int a, b, c; size_t n; if (!(i >> a)) return false; r.violation = a; r.cls = rdS(i); r.detail = rdS(i); i >> r.op >> r.hash >> r.sig >> b >> c >> r.calls >> r.msgs >> n; r.ambiguous = b; r.nontrivial = c;
  while (n--) { std::string k = rdS(i); i >> r.probes[k]; }
  i >> n; while (n--) { uint64_t s; i >> s; r.states.insert(s); }
  std::string d; i >> d; return d == "done";
}
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };

// old stack content is part of the simulated environment too
__attribute__((noinline)) inline void paintStack(int b) { volatile char a[192 * 1024]; for (size_t i = 0; i < sizeof a; i++) a[i] = (char)b; }
// executes in a child; a crash, a hang or a sanitizer report becomes a violation of its own class
inline Result inChild(const std::function<Result()>& f, int cpuS, int wallS) {
  int fd[2]; if (pipe(fd)) _exit(70);
  char tmpl[] = "/tmp/simerrXXXXXX"; int ef = mkstemp(tmpl); unlink(tmpl);
  fflush(nullptr); pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]); if (ef >= 0) { dup2(ef, 2); } { int dn = open("/dev/null", O_WRONLY); if (dn >= 0) dup2(dn, 1); } static NullBuf nb; std::cerr.rdbuf(&nb); std::cout.rdbuf(&nb); std::clog.rdbuf(&nb);
    rlimit rl{(rlim_t)cpuS, (rlim_t)cpuS + 2}; setrlimit(RLIMIT_CPU, &rl); rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc); alarm(wallS);
    Result r; bool ok = true; std::string what;
    paintStack(0xA5);
    try { r = f(); } catch (const std::exception& e) { ok = false; what = e.what(); } catch (...) { ok = false; what = "unknown exception"; }
    if (!ok) { r = Result(); r.fail("exception", what, -1); }
    std::ostringstream o; putResult(o, r); std::string s = o.str(); size_t p = 0; while (p < s.size()) { ssize_t n = write(fd[1], s.data() + p, s.size() - p); if (n <= 0) break; p += n; }
    _exit(0);
  }
  close(fd[1]); std::string got; char b[65536]; ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) got.append(b, n);
  close(fd[0]); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result r; std::istringstream i(got); bool ok = getResult(i, r) && WIFEXITED(st) && WEXITSTATUS(st) == 0;
  if (!ok) {
    r = Result(); std::string err; if (ef >= 0) { lseek(ef, 0, SEEK_SET); ssize_t k; while ((k = read(ef, b, sizeof b)) > 0 && err.size() < 200000) err.append(b, k); }
    std::string what, head = err.substr(0, 300); size_t p = err.find("ERROR: "); if (p == std::string::npos) p = err.find("WARNING: ThreadSanitizer"); if (p == std::string::npos) p = err.find("runtime error:");
    if (p != std::string::npos) { head = err.substr(p, 160); size_t e = head.find('\n'); head = head.substr(0, e); }
    for (char& ch : head) if (ch == '\n') ch = ' ';
    if (WIFSIGNALED(st)) { int s = WTERMSIG(st); what = s == SIGXCPU || s == SIGKILL ? "hang" : s == SIGALRM ? "stuck" : "crash"; head = "signal " + std::to_string(s) + " " + head; }
    else what = "crash";
    r.fail(what, head, -1); Hash64 h; h.add(what); r.hash = h.h;
  }
  if (ef >= 0) close(ef);
  return r;
}
inline std::string base(const std::string& c) { return c.substr(0, c.find(':')); }

struct Agg {
  ll runs = 0, nontrivial = 0, ambiguous = 0, calls = 0, msgs = 0, simMs = 0; std::map<std::string, ll> faults, faultRuns, probes, probeRuns; std::set<uint64_t> sigs, states; uint64_t hash = 0;
  std::vector<ll> samples;
  void add(const Trace& t, const Result& r) {
    runs++; nontrivial += r.nontrivial; ambiguous += r.ambiguous; calls += r.calls; msgs += r.msgs; simMs += t.simMs; hash = hash * 1099511628211ull + r.hash;
    for (auto& f : t.faults) { faults[f.first] += f.second; faultRuns[f.first]++; } for (auto& p : r.probes) { probes[p.first] += p.second; probeRuns[p.first]++; }
    if (r.nontrivial && sigs.size() < 400000) sigs.insert(r.sig);
    if (states.size() < 400000) states.insert(r.states.begin(), r.states.end());
  }
  static std::string q(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) o += ' '; else o += (char)c; } return o + "\""; }
  static std::string obj(const std::map<std::string, ll>& m) { std::string o = "{"; for (auto& p : m) { if (o.size() > 1) o += ","; o += q(p.first) + ":" + std::to_string(p.second); } return o + "}"; }
  static std::string arr(const std::set<uint64_t>& m) { std::string o = "["; for (auto p : m) { if (o.size() > 1) o += ","; o += std::to_string(p); } return o + "]"; }
};

inline Trace make(const std::string& p, uint64_t seed, ll i) { Trace t = generate(p, seed, i); t.par["env"] = (double)((seed * 1000003ull + (uint64_t)i) & 0xffffffffull); return t; }   // what clocks and randomness show in this run
inline void envOf(const Trace& t) { auto i = t.par.find("env"); hook::envStart(i == t.par.end() ? 1 : (uint64_t)i->second); }
inline Result runTrace(const Trace& t, int cpu = 20, int wall = 120) { return inChild([&] { envOf(t); return execute(t); }, cpu, wall); }

inline Trace minimise(const Trace& in, const std::string& cls, double seconds, ll& tried) {
  Trace best = in; double end = now() + seconds; tried = 0;
  auto fails = [&](const Trace& t) { tried++; Result r = runTrace(t, 20, 60); return r.violation && base(r.cls) == base(cls); };
  size_t chunk = std::max<size_t>(1, best.ops.size() / 2);
  while (now() < end) {
    bool any = false;
    for (size_t i = 0; i < best.ops.size() && now() < end;) {
      Trace c = best; size_t e = std::min(best.ops.size(), i + chunk); c.ops.erase(c.ops.begin() + i, c.ops.begin() + e);
      if (!c.ops.empty() && fails(c)) { best = c; any = true; } else i = e;
    }
    if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
  }
  if (best.settings.size() > 1) { auto keys = best.settings[0]; for (auto& p : keys) { if (now() >= end) break; Trace k = best; for (auto& s : k.settings) s.erase(p.first); if (fails(k)) best = k; } }
  for (size_t c = 0; c < best.settings.size() && now() < end; c++) { auto keys = best.settings[c]; for (auto& p : keys) { if (now() >= end) break; Trace k = best; k.settings[c].erase(p.first); if (fails(k)) best = k; } }
  for (size_t l = 0; l < best.world.size() && now() < end; l++) {
    for (size_t i = 0; i < best.world[l].tx.size() && now() < end;) { Trace k = best; k.world[l].tx.erase(k.world[l].tx.begin() + i); if (fails(k)) best = k; else i++; }
    for (size_t i = 0; i < best.world[l].rp.size() && now() < end;) { Trace k = best; k.world[l].rp.erase(k.world[l].rp.begin() + i); if (fails(k)) best = k; else i++; }
  }
  for (size_t l = best.world.size(); l-- > 0 && best.world.size() > 1 && now() < end;) { Trace k = best; k.world.erase(k.world.begin() + l); if (fails(k)) best = k; }
  for (size_t l = 0; l < best.text.size() && now() < end; l++) {
    size_t ch = std::max<size_t>(1, best.text[l].size() / 2);
    while (now() < end) { bool any = false; for (size_t i = 0; i < best.text[l].size() && now() < end;) { Trace k = best; k.text[l].erase(i, ch); if (fails(k)) { best = k; any = true; } else i += ch; } if (ch == 1) { if (!any) break; } else ch = std::max<size_t>(1, ch / 2); }
  }
  best.faults.clear(); { for (auto& o : best.ops) if (!o.tag.empty()) best.faults["(tagged) " + o.tag]++; }
  return best;
}

inline int mainLoop(int argc, char** argv) {
  std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(0xffffffff) >= 0 && personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  std::vector<std::string> pos; for (int i = 2; i < argc; i++) { std::string s = argv[i]; if (s.substr(0, 2) == "--" && i + 1 < argc) { a[s.substr(2)] = argv[i + 1]; i++; } else pos.push_back(s); }
  auto num = [&](const char* k, double d) { return a.count(k) ? strtod(a[k].c_str(), nullptr) : d; };
  if (mode == "run") {
    std::string profile = a["profile"], out = a["out"]; uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 10); ll w = (ll)num("worker", 0), W = (ll)num("workers", 1), from = (ll)num("from", 0); double secs = num("seconds", 5); ll maxN = (ll)num("max", 1e15);
    double end = now() + secs; Agg g; ll badIdx = -1; Result bad; std::map<std::string, ll> hist;
    for (ll i = from + w, n = 0; n < maxN && now() < end; i += W, n++) {
      Trace t = make(profile, seed, i); Result r = runTrace(t); g.add(t, r);
      if (r.nontrivial && g.samples.size() < 5) g.samples.push_back(i);
      if (r.violation) { badIdx = i; bad = r; std::ofstream o(out + ".trace"); o << "# " << r.cls << " at op " << r.op << ": " << r.detail << "\n"; writeTrace(o, t); break; }
    }
    std::ofstream o(out);
    o << "{\"runs\":" << g.runs << ",\"nontrivial\":" << g.nontrivial << ",\"ambiguous\":" << g.ambiguous << ",\"calls\":" << g.calls << ",\"msgs\":" << g.msgs << ",\"simMs\":" << g.simMs << ",\"hash\":" << g.hash
      << ",\"faults\":" << Agg::obj(g.faults) << ",\"faultRuns\":" << Agg::obj(g.faultRuns) << ",\"probes\":" << Agg::obj(g.probes) << ",\"probeRuns\":" << Agg::obj(g.probeRuns) << ",\"sigs\":" << Agg::arr(g.sigs) << ",\"states\":" << Agg::arr(g.states) << ",\"samples\":[";
    for (size_t i = 0; i < g.samples.size(); i++) o << (i ? "," : "") << g.samples[i];
    o << "],\"violation\":" << (badIdx >= 0 ? "{\"index\":" + std::to_string(badIdx) + ",\"cls\":" + Agg::q(bad.cls) + ",\"op\":" + std::to_string(bad.op) + ",\"detail\":" + Agg::q(bad.detail) + ",\"hash\":" + std::to_string(bad.hash) + "}" : std::string("null")) << "}\n";
    return 0;
  }
  if (mode == "gen") { Trace t = make(a["profile"], strtoull(a["seed"].c_str(), nullptr, 10), (ll)num("index", 0)); writeTrace(std::cout, t); return 0; }
  if (mode == "replay" || mode == "minimise") {
    if (pos.empty()) return 2; std::ifstream f(pos[0]); Trace t; if (!readTrace(f, t)) { fprintf(stderr, "bad trace\n"); return 2; }
    if (mode == "replay") {
      Result r = a.count("direct") ? (envOf(t), execute(t)) : runTrace(t);
      printf("violation=%d class=%s op=%lld hash=%" PRIu64 "\n%s\n", (int)r.violation, r.cls.c_str(), r.op, r.hash, r.detail.c_str());
      if (a.count("probes")) for (auto& p : r.probes) printf("  %s %lld\n", p.first.c_str(), p.second);
      return r.violation ? 1 : 0;
    }
    Result r = runTrace(t); if (!r.violation) { printf("not failing\n"); return 3; }
    ll tried; Trace m = minimise(t, r.cls, num("seconds", 30), tried); Result q = runTrace(m);
    std::ofstream o(pos.size() > 1 ? pos[1] : pos[0] + ".min"); o << "# " << q.cls << " at op " << q.op << ": " << q.detail << "\n# minimised from " << t.ops.size() << " to " << m.ops.size() << " steps with " << tried << " executions\n"; writeTrace(o, m);
    printf("minimised %zu -> %zu ops, class=%s\n", t.ops.size(), m.ops.size(), q.cls.c_str()); return 0;
  }
  if (mode == "twice") {   // determinism: every run twice, in processes of their own
    ll n = (ll)num("max", 100), bad = 0; uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 10);
    for (ll i = 0; i < n; i++) { Trace t = generate(a["profile"], seed, i); Result r = runTrace(t), q = runTrace(t); if (r.hash != q.hash || r.violation != q.violation) { printf("index %lld differs\n", i); bad++; } }
    printf("checked=%lld differing=%lld\n", n, bad); return bad ? 1 : 0;
  }
  fprintf(stderr, "usage: run|gen|replay|minimise|twice\n"); return 2;
}
} // namespace proto
