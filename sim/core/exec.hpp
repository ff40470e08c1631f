// Executes a trace against the real core and judges it.
#pragma once
#include <condition_variable>
#include <mutex>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "real.hpp"

namespace ex {
using model::P2;
struct Mask { bool status = false, level = false, pos = false, radius = false, prov = false, ori = false, steps = false, in = false, out = false, alt = false; };

inline double metres(double lat1, double lon1, double lat2, double lon2) {
  double dn = (lat1 - lat2) * model::POLE / 360, de = model::normLon(lon1 - lon2) * (model::EQ * std::cos(lat1 * M_PI / 180)) / 360; return std::hypot(dn, de);
}
inline double angDiff(double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)); }
inline bool close(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

inline std::string mstr(const model::Out& o, const model::Map& m) {
  char b[300]; snprintf(b, sizeof b, "status=%d level=%s lat=%.9f lon=%.9f r=%.6g ori=%.6g prov=%d steps=%d stepLen=%.6g in=(%.4f,%.4f) out=(%.4f,%.4f) alt=%.9g", o.status, o.lvl >= 0 ? m.levels[o.lvl].id.c_str() : "", o.lat, o.lon, o.r, o.ori, o.prov, o.steps, o.stepLen, o.in.x, o.in.y, o.out.x, o.out.y, o.alt); return b;
}
// empty when equal, else what differs
inline std::string diff(const real::Out& a, const model::Out& b, const model::Map& m, const Mask& k) {
  if (k.steps) { if (a.steps != b.steps) return "steps"; if (!close(a.stepLen, b.stepLen, 1e-6)) return "step length"; }
  if (k.in && (!close(a.inX, b.in.x, 1e-5) || !close(a.inY, b.in.y, 1e-5))) return "indoor position";
  if (k.out && (!close(a.outX, b.out.x, 1e-5) || !close(a.outY, b.out.y, 1e-5))) return "outdoor position";
  if (k.status && a.status != b.status) return "status";
  if (a.status != 0 || b.status != 0) return "";
  if (k.level && a.lvl != m.levels[b.lvl].id) return "level";
  if (k.pos) { if (a.lvl != m.levels[b.lvl].id) return "level"; double d = metres(b.lat, b.lon, a.lat, a.lon); if (!(d <= 0.0251)) return "position"; }
  if (k.radius && !close(a.r, b.r, 1e-5)) return "accuracy";
  if (k.prov && a.prov != b.prov) return "provider";
  if (k.ori && std::isfinite(b.oriTol) && !(angDiff(a.ori, b.ori) <= b.oriTol)) return "orientation";
  if (k.alt && !b.altAmb && !(std::fabs(a.alt - b.alt) <= b.altTol)) return "altitude";
  return "";
}
inline std::string wellFormed(const real::Out& o, const std::shared_ptr<real::nc::LevelCollector>& map, bool outside) {
  auto fin = [](double v) { return std::isfinite(v); };
  if (o.status != 0) return o.status == -1 || o.status == 4 || o.status == 7 || o.status == 30 ? "" : "unknown status";
  if (!map->hasLevel(real::nc::LevelId(o.lvl))) return "level not on the map";
  if (!fin(o.lat) || !fin(o.lon)) return "coordinates not finite";
  if (!fin(o.alt)) return "altitude not finite";
  if (!fin(o.r) || o.r < 0) return "bad accuracy radius";
  if (!(o.ori >= -M_PI - 1e-12 && o.ori < M_PI + 1e-12)) return "orientation out of range";
  if (o.prov < 0 || o.prov > 2) return "no provider";
  if (!outside) {
    auto& L = map->level(real::nc::LevelId(o.lvl)); auto p = model::toLocal(o.lat, o.lon, L.bindingPoint().latitude, L.bindingPoint().longitude); auto& b = L.geometry().boundingBox();
    if (p.x < b.min_corner().x() - .03 || p.y < b.min_corner().y() - .03 || p.x > b.max_corner().x() + .03 || p.y > b.max_corner().y() + .03) return "outside the level's bounding box";
  }
  return "";
}

struct LC {   // one client of a lockstep run
  std::map<std::string, double> set; model::Cfg cfg; std::unique_ptr<model::Client> mod; real::Client rc, twin; std::vector<Msg> batch, tbatch; bool amb = false; size_t lastStates = 0;
};

enum TwinKind { NO_TWIN, TWIN_INELIGIBLE, TWIN_STALE, TWIN_NO_ALTITUDE };

// profile -> what is compared, and what must have happened for a run to count
struct Plan { Mask m; TwinKind twin = NO_TWIN; std::vector<std::vector<std::string>> need; };

inline Result lockstep(const Trace& t, const Plan& plan) {
  Result R; Hash64 H, S; auto map = real::buildMap(t.world); auto mmap = std::make_shared<const model::Map>(t.world);
  std::vector<LC> cs(t.settings.size());
  auto make = [&](LC& c, size_t i) { c.set = t.settings[i]; c.cfg = model::Cfg(c.set); c.mod.reset(new model::Client(mmap, c.cfg, &R.probes)); auto s = real::settings(c.set, t.world); c.rc.create(map, s); if (plan.twin) { if (plan.twin == TWIN_NO_ALTITUDE) s.commonSettings.useAltitude = false; c.twin.create(map, s); } c.amb = false; c.lastStates = 0; };
  for (size_t i = 0; i < cs.size(); i++) make(cs[i], i);
  Msg neutral; neutral.kind = MK_RADIO; neutral.type = RT_WIFI; neutral.id = "~";
  std::vector<ll> lastHashed(cs.size(), 0);
  for (size_t k = 0; k < t.ops.size() && !R.violation; k++) {
    const Op& op = t.ops[k]; if (op.c >= (int)cs.size()) continue; LC& c = cs[op.c];
    if (op.op == 'M') c.batch.push_back(op.m);
    else if (op.op == 'R') { c.rc.destroy(); c.twin.destroy(); c.batch.clear(); make(c, op.c); }
    else if (op.op == 'N') {
      std::vector<real::Out> o, tw; size_t ns = 0; bool thrown = false; std::string what;
      try { o = c.rc.call(c.batch, nullptr, &ns); } catch (const std::exception& e) { thrown = true; what = e.what(); }
      R.calls++; R.msgs += c.batch.size(); R.probes["calls"]++;
      if (thrown) { R.fail("exception", "navigate threw " + what, k); break; }
      std::vector<model::Out> mo;
      { // the model answers the accepted measurements of the batch
        bool was = c.mod->c.amb; (void)was; mo = c.mod->navigate(c.batch);
      }
      if (o.size() != mo.size()) { R.fail("count", "outputs " + std::to_string(o.size()) + ", accepted measurements " + std::to_string(mo.size()), k); break; }
      if (c.batch.empty()) { if (ns != c.lastStates) { R.fail("states", "an empty call changed the states", k); break; } R.probes["empty call"]++; }
      else { if (ns != o.size()) { R.fail("count", "states " + std::to_string(ns) + ", outputs " + std::to_string(o.size()), k); break; } c.lastStates = ns; }
      for (size_t i = 0; i < o.size(); i++) {
        real::hashOut(H, o[i]);
        S.add((ll)mo[i].status); S.add((ll)mo[i].lvl); S.add((ll)mo[i].prov); if (plan.m.steps) S.add((ll)mo[i].steps);
        if (mo[i].amb) c.amb = true;
        if (c.amb) { R.ambiguous = true; continue; }
        std::string d = diff(o[i], mo[i], *mmap, plan.m);
        if (!d.empty()) { R.fail(d, d + " differs (client " + std::to_string(op.c) + ", output " + std::to_string(i) + " of call): real " + real::str(o[i]) + " | reference " + mstr(mo[i], *mmap), k); break; }
        if (R.states.size() < 3000) R.states.insert(c.mod->state(mo[i]));
      }
      if (!R.violation && plan.twin) {
        c.tbatch.clear(); ll prev = c.batch.empty() ? 0 : c.batch[0].ts; ll repl = 0;
        for (auto m : c.batch) {
          if (plan.twin == TWIN_STALE) { if (m.ts < prev) { repl++; continue; } prev = m.ts; }
          else if (m.kind == MK_RADIO && !c.mod->eligible(m)) { ll ts = m.ts; m = neutral; m.ts = ts; repl++; }
          c.tbatch.push_back(m);
        }
        if (repl) R.probes["twin.replaced"] += repl;
        try { tw = c.twin.call(c.tbatch); } catch (const std::exception& e) { R.fail("exception", e.what(), k); break; }
        if (tw.size() != o.size()) { R.fail("twin", "twin has another number of outputs", k); break; }
        if (plan.twin == TWIN_NO_ALTITUDE) for (size_t i = 0; i < o.size(); i++) { if (tw[i].alt != 0) { R.fail("twin", "an altitude although altitude is off: " + dbl(tw[i].alt), k); break; } if (!std::isfinite(o[i].alt)) { R.fail("altitude", "altitude not finite: " + real::str(o[i]), k); break; } tw[i].alt = o[i].alt; }
        for (size_t i = 0; i < o.size(); i++) if (!real::same(o[i], tw[i])) {
          R.fail("twin", std::string(plan.twin == TWIN_STALE ? "a skipped measurement" : plan.twin == TWIN_NO_ALTITUDE ? "turning altitude on" : "an ineligible signal") + " changed the result: with it " + real::str(o[i]) + " | without it " + real::str(tw[i]), k); break;
        }
      }
      c.batch.clear();
    }
  }
  for (auto& c : cs) { c.rc.destroy(); c.twin.destroy(); }
  R.hash = H.h; R.sig = S.h; R.nontrivial = true;
  for (auto& alt : plan.need) { bool any = false; for (auto& p : alt) if (R.probes.count(p)) any = true; if (!any) R.nontrivial = false; }
  return R;
}

// ---- C01: one history, many deliveries -------------------------------------------------------------------------
#define NOINLINE __attribute__((noinline))
NOINLINE inline void paintStack(int v) { alignas(8) volatile unsigned char b[24000]; if (v == 257) { for (size_t i = 0; i + 8 <= sizeof b; i += 8) *(volatile long long*)(b + i) = hook::stale[(i * 2654435761u >> 20) & 7]; return; } for (size_t i = 0; i < sizeof b; i++) b[i] = v == 256 ? (unsigned char)(i * 131 + 7) : (unsigned char)v; }

// Every delivery runs in a process of its own making: the reference in a child that has never seen a client, the others
// in a second child after (and between) clients of other settings and of other maps with the same names.
inline std::vector<WLevel> decoyWorld(const std::vector<WLevel>& w, Rng& r) {
  std::vector<WLevel> d = w; int how = (int)r.i(0, 3);
  for (auto& L : d) {
    for (auto& x : L.tx) { x.A += r.uni(-15, 15); x.B = r.uni(4, 9); if (how & 1) { x.lat += r.uni(-1, 1) * 5e-5; x.lon += r.uni(-1, 1) * 5e-5; } }
    for (auto& p : L.rp) { for (auto& m : p.mean) m.second += r.uni(-25, 25); if (how & 1) { p.lat += r.uni(-1, 1) * 5e-5; p.lon += r.uni(-1, 1) * 5e-5; } }
    L.A += r.uni(-10, 10); L.altitude += r.uni(0, 5);
    for (auto& v : L.verts) { v.first += r.uni(-1, 1) * 5e-5; v.second += r.uni(-1, 1) * 5e-5; }
    if (how == 2 && L.rp.size() > 4) L.rp.resize(L.rp.size() - 2);
  }
  if (how == 3 && d.size() > 1) { std::reverse(d.begin(), d.end()); }
  if (how >= 2 && d.size() > 1 && r.p(.5)) { std::swap(d[0].tx, d[1].tx); std::swap(d[0].rp, d[1].rp); }
  return d;
}
struct Pipe { std::string b; size_t at = 0;
  template <class T> void put(const T& v) { b.append((const char*)&v, sizeof v); } void put(const std::string& s) { put(s.size()); b += s; }
  template <class T> void get(T& v) { if (at + sizeof v > b.size()) throw std::runtime_error("the other process ended early"); memcpy(&v, b.data() + at, sizeof v); at += sizeof v; }
  void get(std::string& s) { size_t n; get(n); if (at + n > b.size()) throw std::runtime_error("the other process ended early"); s = b.substr(at, n); at += n; }
  void out(const real::Out& o) { put(o.status); put(o.lvl); put(o.lat); put(o.lon); put(o.alt); put(o.r); put(o.ori); put(o.prov); put(o.steps); put(o.stepLen); put(o.heading); put(o.inX); put(o.inY); put(o.outX); put(o.outY); }
  void out(real::Out& o, int) { get(o.status); get(o.lvl); get(o.lat); get(o.lon); get(o.alt); get(o.r); get(o.ori); get(o.prov); get(o.steps); get(o.stepLen); get(o.heading); get(o.inX); get(o.inY); get(o.outX); get(o.outY); }
  void outs(const std::vector<real::Out>& v) { put(v.size()); for (auto& o : v) out(o); }
  std::vector<real::Out> outs() { size_t n; get(n); std::vector<real::Out> v; for (size_t i = 0; i < n; i++) { real::Out o{}; out(o, 0); v.push_back(o); } return v; }
};
template <class F> inline int inChild(F f, Pipe& p) {
  int fd[2]; if (pipe(fd)) abort(); fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) abort();
  if (pid == 0) { ::close(fd[0]); Pipe w; int rc = 0; try { f(w); } catch (const std::exception& e) { rc = 9; } catch (...) { rc = 9; } size_t at = 0; while (at < w.b.size()) { ssize_t n = ::write(fd[1], w.b.data() + at, w.b.size() - at); if (n <= 0) _exit(8); at += n; } _exit(rc); }
  ::close(fd[1]); char buf[65536]; ssize_t n; while ((n = ::read(fd[0], buf, sizeof buf)) > 0) p.b.append(buf, n); ::close(fd[0]); int st = 0; waitpid(pid, &st, 0); return st;
}
// an app may call a client from whichever thread happens to be free: a worker of its own, or a fresh one every time
struct Worker {
  std::mutex m; std::condition_variable cv; std::function<void()> job; bool stop = false; std::exception_ptr ex; std::thread th;
  Worker() : th([this] { std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [&] { return job || stop; }); if (stop) return; try { job(); } catch (...) { ex = std::current_exception(); } job = nullptr; cv.notify_all(); } }) {}
  ~Worker() { { std::lock_guard<std::mutex> l(m); stop = true; } cv.notify_all(); th.join(); }
  void run(const std::function<void()>& f) { std::unique_lock<std::mutex> l(m); job = f; cv.notify_all(); cv.wait(l, [&] { return !job; }); if (ex) { auto e = ex; ex = nullptr; std::rethrow_exception(e); } }
};
inline Result determinism(const Trace& t) {
  Result R; Hash64 H, S; std::vector<Msg> all; std::vector<size_t> cuts; 
  for (auto& o : t.ops) { if (o.op == 'M') { if (!all.empty() && o.m.ts < all.back().ts) continue; all.push_back(o.m); } else if (o.op == 'N') { if (cuts.empty() || cuts.back() != all.size()) cuts.push_back(all.size()); } }
  if (all.empty()) return R;
  if (cuts.empty() || cuts.back() != all.size()) cuts.push_back(all.size());
  uint64_t vs = (uint64_t)(t.par.count("vseed") ? t.par.at("vseed") : 1); Rng r(vs, 77);
  struct V { std::string name; std::vector<size_t> cuts; int fill, paint; int prior; int workers = 0; };   // prior: other clients first; the first of them on another map; workers: threads the calls go to (-1: the first one or a new one)
  std::vector<V> vars; vars.push_back({"as delivered", cuts, 0, 0, 0});
  { V v{"one call per message", {}, 0xA5, 0xFF, 1}; for (size_t i = 1; i <= all.size(); i++) v.cuts.push_back(i); vars.push_back(v); }
  vars.push_back({"one single call", {all.size()}, 0xFF, 0x3F, 2, 1});
  { V v{"random cuts, calls from changing threads", {}, 256, 256, 3, 2}; size_t i = 0; while (i < all.size()) { i += (size_t)r.i(1, r.p(.5) ? 4 : 40); v.cuts.push_back(std::min(i, all.size())); } vars.push_back(v); }
  vars.push_back({"as delivered, other memory", cuts, 0x40, 0x7F, 1});
  { auto bits = [](double d) { long long x; memcpy(&x, &d, 8); return x; };
    long long a = all.front().ts, b = all.back().ts, m = all[all.size() / 2].ts; long long w[8] = {a - 20000, a + (b - a) / 8, m, 1, r.i(0, 9), bits(1.0), bits(r.uni(-90, 90)), m - r.i(0, 100000)}; memcpy(hook::stale, w, sizeof w); }
  vars.push_back({"one call per message, memory with the leavings of others", vars[1].cuts, 257, 257, 1});
  { V v{"as delivered, empty calls between, some from new threads", {}, 1, 1, 0, -1}; for (auto c : cuts) { v.cuts.push_back(c); v.cuts.push_back(c); } vars.push_back(v); }
  auto run = [&](V& v, Rng r) {
    hook::envStart(vs * 31 + (uint64_t)(&v - &vars[0])); hook::st = hook::State(); std::vector<WLevel> dw = decoyWorld(t.world, r);
    std::vector<std::unique_ptr<Worker>> ws; for (int i = 0; i < v.workers; i++) ws.emplace_back(new Worker);
    auto on = [&](const std::function<void()>& f) {   // in which thread
      if (!v.workers) { f(); return; } hook::State keep = hook::st; auto g = [&] { hook::State mine = hook::st; hook::st = keep; try { f(); } catch (...) { keep = hook::st; hook::st = mine; throw; } keep = hook::st; hook::st = mine; };
      if (v.workers < 0) { if (r.p(.15)) { Worker w; w.run(g); } else g(); } else ws[(size_t)r.i(0, v.workers - 1)]->run(g); hook::st = keep;
    };
    auto map = real::buildMap(t.world); auto other = real::buildMap(dw); std::vector<real::Client> alive; std::vector<size_t> fed; std::vector<int> keep;
    for (int p = 0; p < v.prior; p++) {   // other clients lived, or still live, in this process
      real::Client c; bool odd = p % 2 == 1; const auto& s = t.settings.size() > 1 && (odd || r.p(.3)) ? t.settings[1 + p / 2 % (t.settings.size() - 1)] : t.settings[0];
      c.create(odd ? map : other, real::settings(s, odd ? t.world : dw)); size_t n = std::min<size_t>(all.size(), (size_t)r.i(1, 200)); std::vector<Msg> b(all.begin(), all.begin() + n); on([&] { c.call(b); });
      if (r.p(.5)) on([&] { c.destroy(); }); else { alive.push_back(c); fed.push_back(n); }
    }
    hook::st.fill = v.fill; void* junk[64]; int nj = (int)r.i(0, 63); for (int i = 0; i < nj; i++) junk[i] = malloc((size_t)r.i(1, 3000)); for (int i = 0; i < nj; i += 2) free(junk[i]);
    real::Client c; on([&] { paintStack(v.paint); c.create(map, real::settings(t.settings[0], t.world)); });
    std::vector<real::Out> got; size_t at = 0;
    for (size_t cut : v.cuts) {
      for (size_t a = 0; a < alive.size(); a++) if (r.p(.1)) { size_t n = std::min(all.size(), fed[a] + (size_t)r.i(1, 20)); std::vector<Msg> b(all.begin() + fed[a], all.begin() + n); fed[a] = n; on([&] { alive[a].call(b); }); }
      std::vector<Msg> b(all.begin() + at, all.begin() + cut); at = cut; on([&] { paintStack(v.paint); auto o = c.call(b); got.insert(got.end(), o.begin(), o.end()); });
    }
    on([&] { c.destroy(); }); for (int i = 1; i < nj; i += 2) free(junk[i]); hook::st.fill = 0xA5; for (auto& a : alive) a.destroy();
    return got;
  };
  std::vector<Rng> rs; for (size_t i = 0; i < vars.size(); i++) rs.push_back(Rng(vs, 100 + i));
  Pipe pr, po; int st1 = inChild([&](Pipe& w) { w.outs(run(vars[0], rs[0])); }, pr), st2 = inChild([&](Pipe& w) { for (size_t i = 1; i < vars.size(); i++) { w.outs(run(vars[i], rs[i])); } }, po);
  for (auto& v : vars) { R.calls += v.cuts.size(); R.msgs += all.size(); R.probes["variant"]++; R.probes["client of another map before"] += (v.prior + 1) / 2; }
  if (st1 || st2) { R.fail("crash", std::string("a run ") + (st1 ? "alone in its process" : "after other clients") + " ended with status " + std::to_string(st1 ? st1 : st2), -1); return R; }
  std::vector<real::Out> ref = pr.outs();
  for (auto& o : ref) { real::hashOut(H, o); S.add((ll)o.status); S.add(o.lvl); S.add((ll)o.prov); S.add((ll)o.steps); if (o.status == 0) R.probes["ok"]++; Hash64 q; q.add((ll)o.status); q.add(o.lvl); q.add((ll)o.prov); q.add((ll)std::min(o.steps, 3)); R.states.insert(q.h); }
  for (size_t vi = 1; vi < vars.size() && !R.violation; vi++) {
    std::vector<real::Out> got = po.outs(); V& v = vars[vi];
    if (got.size() != ref.size()) { R.fail("count", "'" + v.name + "' has " + std::to_string(got.size()) + " outputs, 'as delivered' " + std::to_string(ref.size()), -1); break; }
    for (size_t i = 0; i < got.size(); i++) if (!real::same(got[i], ref[i])) { R.fail("differs", "measurement " + std::to_string(i) + ": '" + v.name + "' gives " + real::str(got[i]) + " heading " + dbl(got[i].heading) + " | 'as delivered' gives " + real::str(ref[i]) + " heading " + dbl(ref[i].heading), (ll)i); break; }
  }
  R.hash = H.h; R.sig = S.h; R.nontrivial = R.probes.count("ok") && all.size() > 20; return R;
}

// ---- C04: hostile streams --------------------------------------------------------------------------------------
inline Result hostile(const Trace& t) {
  Result R; Hash64 H, S; auto map = real::buildMap(t.world); std::vector<real::Client> cs(t.settings.size()); std::vector<std::vector<Msg>> batch(cs.size());
  for (size_t i = 0; i < cs.size(); i++) cs[i].create(map, real::settings(t.settings[i], t.world));
  for (size_t k = 0; k < t.ops.size() && !R.violation; k++) {
    const Op& op = t.ops[k]; if (op.c >= (int)cs.size()) continue;
    if (op.op == 'M') { batch[op.c].push_back(op.m); if (op.tag == "corrupt") R.probes["corrupt delivered"]++; }
    else if (op.op == 'R') { cs[op.c].destroy(); cs[op.c].create(map, real::settings(t.settings[op.c], t.world)); batch[op.c].clear(); }
    else if (op.op == 'N') {
      std::vector<real::Out> o; size_t acc = 0; ll prev = batch[op.c].empty() ? 0 : batch[op.c][0].ts; for (auto& m : batch[op.c]) if (m.ts >= prev) { prev = m.ts; acc++; }
      timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
      try { o = cs[op.c].call(batch[op.c]); } catch (const std::exception& e) { R.fail("exception", std::string("navigate threw ") + e.what(), k); break; }
      clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b); double cpu = (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9; (void)cpu;
      R.calls++; R.msgs += batch[op.c].size(); batch[op.c].clear();
      if (o.size() != acc) { R.fail("count", "outputs " + std::to_string(o.size()) + " for " + std::to_string(acc) + " measurements", k); break; }
      bool outside = t.settings[op.c].count("useGpsOutsideMap") && t.settings[op.c].at("useGpsOutsideMap") != 0;
      for (auto& x : o) {
        real::hashOut(H, x); S.add((ll)x.status); S.add(x.lvl); S.add((ll)x.prov); if (x.status == 0) R.probes["ok"]++; else R.probes["error output"]++;
        Hash64 q; q.add((ll)x.status); q.add(x.lvl); q.add((ll)x.prov); R.states.insert(q.h);
        std::string w = wellFormed(x, map, outside); if (!w.empty()) { R.fail(w, w + ": " + real::str(x), k); break; }
      }
    }
  }
  for (auto& c : cs) c.destroy();
  R.hash = H.h; R.sig = S.h; R.nontrivial = R.probes.count("ok") && R.probes.count("corrupt delivered"); return R;
}

// ---- C18 / C19: recovery ---------------------------------------------------------------------------------------
// client 0 meets the faults, client 1 sees the clean stream, client 2 (if any) is a bystander on the same map that
// must be bit-identical to a run of its own. An X step marks the start of the final clean phase's judgement.
// The faults may only change what client 0 is given before the clean phase; everything else is part of the claim. A
// reduced trace that drops other parts is no counterexample.
inline Result recovery(const Trace& t, bool oom) {
  if (t.settings.size() < 2 || t.settings[0] != t.settings[1] || (t.par.count("frame") && t.par.at("frame") != (double)(traceFrame(t) >> 12))) return Result();
  Result R; Hash64 H, S; auto map = real::buildMap(t.world); uint64_t dig = real::digest(*map, t.world);
  size_t n = t.settings.size(); std::vector<real::Client> cs(n); std::vector<std::vector<Msg>> batch(n); std::deque<std::pair<ll, real::Out>> recent[4]; ll now2 = 0;
  // fresh clients that see the clean phase only: where they disagree with the clean client the answer is a matter of history
  real::Client fresh[2]; ll freshFrom[2] = {(ll)t.par.at("cleanFrom"), (ll)t.par.at("cleanFrom") + 317};
  auto map2 = real::buildMap(t.world); real::Client solo; bool bystander = n > 2; std::vector<bool> isOutside(n, false);
  for (size_t i = 0; i < n; i++) { cs[i].create(map, real::settings(t.settings[i], t.world)); isOutside[i] = t.settings[i].count("useGpsOutsideMap") && t.settings[i].at("useGpsOutsideMap") != 0; }
  if (bystander) solo.create(map2, real::settings(t.settings[2], t.world));
  ll failAt = -1, failN = 0; bool judged = false; std::vector<uint32_t> sites; std::map<uint32_t, ll> seen;   // allocations of the clean client: this call, all calls
  double tol = t.par.count("tol") ? t.par.at("tol") : 0.5; ll steps0 = 0;
  for (size_t k = 0; k < t.ops.size() && !R.violation; k++) {
    const Op& op = t.ops[k]; if (op.c >= (int)n) continue;
    if (op.op == 'M') batch[op.c].push_back(op.m);
    else if (op.op == 'A') {
      failAt = op.n; failN = op.k;
      if (op.n < 0) {   // one of those the clean client has just made, the rarer its place in the code the likelier
        Rng q((uint64_t)-op.n, 3); double sum = 0; for (auto s : sites) sum += 1.0 / (double)seen[s]; double u = q.u() * sum; failAt = 0; for (auto s : sites) { u -= 1.0 / (double)seen[s]; if (u < 0) break; failAt++; }
      }
    }
    else if (op.op == 'R') {
      cs[op.c].destroy(); ll live0 = hook::st.live; 
      if (op.k > 0) { hook::st.n = 0; hook::st.failAt = op.n; hook::st.failCount = op.k; ll f0 = hook::st.fired; bool ok = true;
        try { cs[op.c].create(map, real::settings(t.settings[op.c], t.world)); } catch (const std::bad_alloc&) { ok = false; } catch (const std::exception& e) { R.fail("exception", std::string("creating a client out of memory threw ") + e.what(), k); }
        hook::st.armed = false; hook::st.failAt = -1; if (hook::st.fired > f0) { R.probes["creation failed"]++; t.faults.size(); if (ok) R.probes["creation survived"]++; }
        if (!ok) { if (hook::st.live != live0) R.fail("leak", "creating a client failed and leaked " + std::to_string(hook::st.live - live0) + " allocations", k); cs[op.c].create(map, real::settings(t.settings[op.c], t.world)); } }
      else cs[op.c].create(map, real::settings(t.settings[op.c], t.world));
      if (op.c < 2) recent[op.c].clear();
    } else if (op.op == 'N') {
      std::vector<real::Out> o; R.calls++; R.msgs += batch[op.c].size(); bool failed = false;
      std::vector<ll> accepted; for (auto& m : batch[op.c]) if (accepted.empty() || m.ts >= accepted.back()) accepted.push_back(m.ts);
      hook::st.n = 0; ll f0 = hook::st.fired; if (oom && op.c == 1) { sites.clear(); hook::st.sites = &sites; } if (failAt >= 0 && op.c == 0) { hook::st.failAt = failAt; hook::st.failCount = failN; }
      try { o = cs[op.c].call(batch[op.c]); } catch (const std::bad_alloc&) { failed = true; } catch (const std::exception& e) { R.fail("exception", std::string("navigate threw ") + e.what(), k); }
      hook::st.armed = false; hook::st.failAt = -1; bool fired = hook::st.fired > f0; if (op.c == 0) failAt = -1; if (hook::st.sites) { hook::st.sites = nullptr; for (auto x : sites) seen[x]++; }
      if (R.violation) break;
      if (failed && !fired) { R.fail("exception", "bad_alloc without a failed allocation", k); break; }
      if (fired) { R.probes["allocation failed in a call"]++; if (failed) R.probes["call failed"]++; else R.probes["call survived"]++; }
      for (auto& x : o) { real::hashOut(H, x); S.add((ll)x.status); S.add(x.lvl); Hash64 q; q.add((ll)x.status); q.add(x.lvl); q.add((ll)x.prov); q.add((ll)op.c); R.states.insert(q.h); std::string w = wellFormed(x, map, isOutside[op.c]); if (!w.empty()) { R.fail(w, w + ": " + real::str(x), k); break; } }
      if (getenv("SIM_DUMP") && op.c < 2) for (size_t i = 0; i < o.size(); i++) fprintf(stderr, "%lld client %d %s\n", accepted[i], op.c, real::str(o[i]).c_str());
      for (size_t i = 0; i < o.size(); i++) { ll ts = accepted[i]; if (op.c < 2) { recent[op.c].push_back({ts, o[i]}); now2 = std::max(now2, ts); } }
      if (op.c == 1 && !R.violation) for (int f = 0; f < 2; f++) {
        std::vector<Msg> b; for (auto& m : batch[1]) if (m.ts >= freshFrom[f]) b.push_back(m);
        if (b.empty()) continue;
        if (!fresh[f].c) fresh[f].create(map, real::settings(t.settings[1], t.world));
        std::vector<ll> acc; for (auto& m : b) if (acc.empty() || m.ts >= acc.back()) acc.push_back(m.ts);
        auto fo = fresh[f].call(b); for (size_t i = 0; i < fo.size() && i < acc.size(); i++) recent[2 + f].push_back({acc[i], fo[i]});
      }
      for (int q = 0; q < 4; q++) while (!recent[q].empty() && recent[q].front().first < now2 - 30000) recent[q].pop_front();
      if (bystander && op.c == 2 && !R.violation) {
        auto s = solo.call(batch[2]); if (s.size() != o.size()) R.fail("bystander", "another client's failure changed the number of outputs", k);
        for (size_t i = 0; i < o.size() && !R.violation; i++) if (!real::same(o[i], s[i])) R.fail("bystander", "another client's failure changed this client: " + real::str(o[i]) + " | alone " + real::str(s[i]), k);
        R.probes["bystander compared"]++;
      }
      batch[op.c].clear();
    } else if (op.op == 'X') {   // both must agree now, and keep agreeing
      // what the clean client reported in the last half minute, and how far apart that was
      judged = true; bool steady = recent[1].size() > 1; const real::Out* first = nullptr; double loLat = 1e9, hiLat = -1e9, loLon = 1e9, hiLon = -1e9, oriSpread = 0;
      for (int f = 1; f < 4; f++) for (auto& q : recent[f]) { const real::Out& b = q.second; if (b.status != 0 || (first && first->lvl != b.lvl)) { steady = false; break; } if (!first) first = &b; loLat = std::min(loLat, b.lat); hiLat = std::max(hiLat, b.lat); loLon = std::min(loLon, b.lon); hiLon = std::max(hiLon, b.lon); oriSpread = std::max(oriSpread, angDiff(first->ori, b.ori)); }
      if (!steady || recent[1].back().first < now2 - 8000) { R.probes["clean client is not steady"]++; continue; }
      if (t.par.count("wantLevel")) { size_t w = (size_t)t.par.at("wantLevel"); if (w >= t.world.size() || first->lvl != t.world[w].id) { R.probes["clean client did not follow the change of level"]++; continue; } R.probes["judged after a change of level by pressure"]++; }
      if (t.par.count("walks")) R.probes["judged after a walk"]++;
      double spread = metres(loLat, loLon, hiLat, hiLon); { auto& b = recent[1].back().second; if (t.settings[1].count("useGps") && t.settings[1].at("useGps") != 0 && (b.inX || b.inY) && (b.outX || b.outY)) spread += std::hypot(b.inX - b.outX, b.inY - b.outY); }   // which source wins can be a matter of milliseconds
      R.probes["judged"]++; if (t.par.count("satellitesOnly")) R.probes["judged on satellites alone"]++; if (spread < .5) R.probes["judged sharply"]++;
      const real::Out* a = nullptr; for (auto& q : recent[0]) if (q.second.status == 0 && q.first >= now2 - 10000) a = &q.second;
      bool radio = false; for (auto& q : recent[1]) if (q.second.prov != 0) radio = true;   // satellites alone do not tell the level
      if (!a && !radio && !t.par.count("satellitesOnly")) { R.probes["satellites only"]++; continue; }
      if (!a) { R.fail("no recovery", std::string("no position for ten seconds, last output ") + (recent[0].empty() ? std::string("none") : real::str(recent[0].back().second)) + " | client without faults " + real::str(*first), k); break; }
      if (radio && a->lvl != first->lvl) { R.fail("no recovery: level", "level " + a->lvl + " instead of " + first->lvl, k); break; }
      double d = 1e18; for (int f = 1; f < 4; f++) for (auto& q : recent[f]) d = std::min(d, metres(q.second.lat, q.second.lon, a->lat, a->lon));
      if (!(d <= tol + spread)) R.fail("no recovery: position", "off by " + dbl(d) + " m (spread " + dbl(spread) + " m): " + real::str(*a) + " | client without faults " + real::str(recent[1].back().second), k);
      else if (t.par.count("judgeOri") && a->lvl == first->lvl && !(angDiff(a->ori, recent[1].back().second.ori) <= .1 + oriSpread)) R.fail("no recovery: orientation", real::str(*a) + " | client without faults " + real::str(recent[1].back().second), k);
    }
  }
  (void)steps0; (void)judged;
  hook::st.armed = false; for (auto& c : cs) c.destroy(); if (bystander) solo.destroy(); for (auto& c : fresh) c.destroy();
  if (!R.violation && hook::st.live != 0) R.fail("leak", std::to_string(hook::st.live) + " allocations are still held after all clients are gone", -1);
  if (!R.violation && real::digest(*map, t.world) != dig) R.fail("map", "the shared map changed", -1);
  R.hash = H.h; R.sig = S.h; R.nontrivial = R.probes.count("judged") && (!oom || R.probes.count("allocation failed in a call")); return R;
}

// the same corners in either direction, from any of them
template <class Ring> inline bool sameRing(const Ring& got, std::vector<P2> want) {
  std::vector<P2> g; for (auto& q : got) g.push_back({q.x(), q.y()}); auto open = [](std::vector<P2>& v) { while (v.size() > 1 && v.front().x == v.back().x && v.front().y == v.back().y) v.pop_back(); }; open(g); open(want);
  if (g.size() != want.size()) return false; size_t n = g.size(); if (!n) return true;
  for (int dir : {1, -1}) for (size_t s = 0; s < n; s++) { bool ok = true; for (size_t i = 0; i < n && ok; i++) { auto& w = want[dir > 0 ? (s + i) % n : (s + n - i) % n]; ok = close(g[i].x, w.x, 1e-7) && close(g[i].y, w.y, 1e-7); } if (ok) return true; }
  return false;
}
// ---- C20: adding levels under allocation failure ---------------------------------------------------------------
inline Result mapBuild(const Trace& t) {
  Result R; Hash64 H; auto map = real::nc::createLevelCollector(); std::vector<WLevel> done; std::map<int, ll> tried; 
  std::vector<bool> added(t.world.size(), false); model::Map whole(t.world);
  auto verify = [&](size_t k, bool walks) {
    auto ref = real::buildMap(done); uint64_t a = real::digest(*map, t.world), b = real::digest(*ref, t.world); H.add((ll)a);
    if (a != b) { R.fail("content", "the map differs from one built of the same levels without failures", k); return; }
    if (map->levels().size() != done.size()) { R.fail("content", "number of levels", k); return; }
    for (size_t i = 0; i < done.size(); i++) {
      const WLevel& w = done[i]; const auto& L = map->levels()[i]; int mi = -1; for (size_t q = 0; q < t.world.size(); q++) if (t.world[q].id == w.id) mi = (int)q;
      const model::Level& M = whole.levels[mi];
      if (L.id().value != w.id || !map->hasLevel(L.id()) || &map->level(L.id()) != &L) { R.fail("index", "level " + w.id + " is not where its name points", k); return; }
      if (!close(L.bindingPoint().latitude, M.blat, 1e-12) || !close(L.bindingPoint().longitude, M.blon, 1e-12)) { R.fail("content", "binding point", k); return; }
      for (auto& x : M.tx) { auto id = real::nc::TransmitterId(x.first); if (!L.containsTransmitter(id) || !close(L.transmitter(id).point.x, x.second.p.x, 1e-7) || !close(L.transmitter(id).point.y, x.second.p.y, 1e-7)) { R.fail("content", "transmitter " + x.first, k); return; }
        for (auto& y : w.tx) if (y.id == x.first) { auto& g = L.transmitter(id); if (g.id.value != y.id || !close(g.point.z, w.altitude + y.alt, 1e-9) || g.pathlossModel.A != y.A || g.pathlossModel.B != y.B || g.pathlossModel.power != y.power || (int)g.type != y.type) { R.fail("content", "height, signal model or kind of transmitter " + x.first, k); return; } break; }
        auto f = map->findLevelByTransmitterId(id); std::string want; for (auto& d : done) { bool h = false; for (auto& y : d.tx) if (y.id == x.first) h = true; if (h) { want = d.id; break; } }
        if (!f || f->value != want) { R.fail("index", "transmitter " + x.first + " leads to another level", k); return; } }
      for (auto& o : t.world) for (auto& y : o.tx) if (!M.tx.count(y.id) && L.containsTransmitter(real::nc::TransmitterId(y.id))) { R.fail("content", "level " + w.id + " holds transmitter " + y.id + " of another level", k); return; }
      auto& rp = L.radiomap().referencePoints(); if (rp.size() != M.rp.size()) { R.fail("content", "reference points", k); return; }
      for (size_t q = 0; q < rp.size(); q++) { if (rp[q].id.value != M.rp[q].id || !close(rp[q].point.x, M.rp[q].p.x, 1e-7) || !close(rp[q].point.y, M.rp[q].p.y, 1e-7) || rp[q].fingerprints.size() != M.rp[q].mean.size()) { R.fail("content", "reference point " + M.rp[q].id, k); return; } for (auto& f : rp[q].fingerprints) if (!M.rp[q].mean.count(f.first.value) || M.rp[q].mean.at(f.first.value) != f.second.mean || f.second.variance != 1.0 || f.second.nMeasurements != 5) { R.fail("content", "fingerprint", k); return; } else { int ty = 0; for (auto& y : w.tx) if (y.id == f.first.value) ty = y.type; if ((int)f.second.type != ty) { R.fail("content", "fingerprint kind", k); return; } }
        if (!L.radiomap().hasReferencePoint(rp[q].id)) { R.fail("index", "reference point " + M.rp[q].id + " is not found by name", k); return; } bool dup = false; for (size_t z = 0; z < rp.size(); z++) if (z != q && M.rp[z].id == M.rp[q].id) dup = true;
        if (!dup) { auto g = L.radiomap().getReferencePoint(rp[q].id); if (g.id.value != M.rp[q].id || g.point.x != rp[q].point.x || g.point.y != rp[q].point.y || g.fingerprints.size() != rp[q].fingerprints.size()) { R.fail("index", "the name of reference point " + M.rp[q].id + " leads to another one", k); return; } } }
      for (auto& o : t.world) for (auto& y : o.rp) { bool own = false; for (auto& z : M.rp) if (z.id == y.id) own = true; if (!own && L.radiomap().hasReferencePoint(real::nc::ReferencePointId(y.id))) { R.fail("index", "reference point " + y.id + " of another level is found by name", k); return; } }
      size_t nv = 0; for (auto it = L.graph().vertexBegin(); it != L.graph().vertexEnd(); ++it, nv++) if (nv >= M.verts.size() || !close(it->point.x, M.verts[nv].x, 1e-7) || !close(it->point.y, M.verts[nv].y, 1e-7)) { R.fail("content", "graph vertex", k); return; }
      size_t ne = 0; for (auto it = L.graph().edgesBegin(); it != L.graph().edgesEnd(); ++it, ne++) if (ne >= M.edges.size() || *it != M.edges[ne]) { R.fail("content", "graph edge", k); return; }
      if (nv != M.verts.size() || ne != M.edges.size()) { R.fail("content", "graph", k); return; }
      auto& b2 = L.geometry().boundingBox(); if (!close(b2.min_corner().x(), M.lo.x, 1e-7) || !close(b2.min_corner().y(), M.lo.y, 1e-7) || !close(b2.max_corner().x(), M.hi.x, 1e-7) || !close(b2.max_corner().y(), M.hi.y, 1e-7)) { R.fail("content", "bounding box", k); return; }
      if (L.geometry().allowedArea().size() != M.outers.size()) { R.fail("content", "allowed area", k); return; }
      for (size_t q = 0; q < M.outers.size(); q++) { auto& P = L.geometry().allowedArea()[q]; if (!sameRing(P.outer(), M.outers[q])) { R.fail("content", "outline of allowed area " + std::to_string(q), k); return; }
        if (P.inners().size() != M.inners[q].size()) { R.fail("content", "number of holes of allowed area " + std::to_string(q), k); return; } for (size_t h = 0; h < M.inners[q].size(); h++) if (!sameRing(P.inners()[h], M.inners[q][h])) { R.fail("content", "hole " + std::to_string(h) + " of allowed area " + std::to_string(q), k); return; } }
      Rng pr(977, i * 31 + 7); for (int q = 0; walks && q < 30; q++) {   // straight walks against walls
        std::vector<P2> path; int np = (int)pr.i(2, 3); P2 at{pr.uni(M.lo.x - 3, M.hi.x + 3), pr.uni(M.lo.y - 3, M.hi.y + 3)}; double reach = pr.p(.5) ? 4 : 40; for (int j = 0; j < np; j++) { path.push_back(at); at.x += pr.uni(-reach, reach); at.y += pr.uni(-reach, reach); }
        int want = model::walkTouches(M.outers, M.inners, path); if (want < 0) continue; real::nc::Linestring ls; for (auto& c : path) boost::geometry::append(ls, real::nc::Point(c.x, c.y));
        R.probes[want ? "walk into a wall" : "free walk"]++; if (L.geometry().isPathTouchesBarriers(ls) != (want == 1)) { R.fail("content", std::string("a walk that ") + (want ? "meets a wall is called free" : "is free is said to meet a wall"), k); return; } }
    }
    for (size_t q = 0; q < t.world.size(); q++) { bool in = false; for (auto& d : done) if (d.id == t.world[q].id) in = true; if (map->hasLevel(real::nc::LevelId(t.world[q].id)) != in) { R.fail("index", "a level that was not added is found by name", k); return; }
      for (auto& x : t.world[q].tx) { bool any = false; for (auto& d : done) for (auto& y : d.tx) if (y.id == x.id) any = true; if ((bool)map->findLevelByTransmitterId(real::nc::TransmitterId(x.id)) != any) { R.fail("index", "a transmitter of a level that was not added is found", k); return; } } }
  };
  for (size_t k = 0; k < t.ops.size() && !R.violation; k++) {
    const Op& op = t.ops[k]; if (op.c >= (int)t.world.size() || added[op.c]) continue;
    real::nc::GeoLevel g = real::geoLevel(t.world[op.c]); bool ok = true; hook::st.n = 0; hook::st.live = 0; hook::st.failAt = op.op == 'A' ? op.n : -1; hook::st.failCount = op.k; ll f0 = hook::st.fired;
    ll live0 = hook::st.live; 
    try { hook::Arm a; map->addGeoLevel(g); } catch (const std::bad_alloc&) { ok = false; } catch (const std::exception& e) { hook::st.armed = false; R.fail("exception", e.what(), k); break; }
    hook::st.armed = false; hook::st.failAt = -1; R.calls++; R.probes[op.op == 'A' ? "add with failure armed" : "add"]++;
    if (hook::st.fired > f0) R.probes["allocation failed"]++;
    if (!ok && hook::st.live - live0 > 1) R.probes["kept after failure"]++;   // a grown container may stay grown
    if (!ok && hook::st.fired == f0) { R.fail("exception", "bad_alloc without a failed allocation", k); break; }
    if (ok) { added[op.c] = true; done.push_back(t.world[op.c]); R.probes["added"]++; if (hook::st.fired > f0) R.probes["added despite failure"]++; } else { R.probes["add failed"]++; }
    R.states.insert((uint64_t)(ok ? 1000000 : 0) + (uint64_t)hook::st.n * 8 + done.size());
    verify(k, ok);
  }
  if (!R.violation && done.size() == t.world.size() && !done.empty()) {   // the finished map must navigate
    real::Client c; c.create(map, real::settings({}, t.world)); Msg m; m.ts = 1000; m.kind = MK_RADIO; m.type = RT_BEACON; std::vector<Msg> b;
    if (!done[0].tx.empty()) { m.id = done[0].tx[0].id; m.v[0] = -60; for (int i = 0; i < 4; i++) { m.ts += 600; b.push_back(m); } auto o = c.call(b); for (auto& x : o) real::hashOut(H, x); R.probes["navigated"]++; } c.destroy();
  }
  R.hash = H.h; Hash64 S; for (auto& o : t.ops) { S.add((ll)o.c); S.add(o.n); S.add(o.k); } R.sig = S.h; R.nontrivial = R.probes.count("add failed") && R.probes.count("added"); return R;
}
} // namespace ex
