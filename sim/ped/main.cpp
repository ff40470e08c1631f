// C22: the standalone step counter. Samples travel over a faulty transport and arrive in updates of any size; every
// reported step is compared with a detector that sees the same samples one at a time.
#include <pedometer.h>
#include <memory>
#include "../main.hpp"
#include "../small.hpp"
#ifdef SIM_SOAK
#include "../small_soak.hpp"
#endif
namespace nv = navigine::navigation_core;

namespace {
struct Ref {   // the detector, one sample at a time
  struct S { ll ts; double mag, f; double scale; }; std::vector<S> s; size_t first = 0, done = 0; ll possible = -1; bool tie = false;
  struct Out { ll ts; double amp; bool ampSure; double scale; };
  void sample(ll ts, double mag) {
    s.push_back({ts, mag, 0, 0}); double a = 0, b = 0, sc = 1; size_t na = 0, nb = 0, i = s.size();
    while (i > 0 && ts - s[i - 1].ts < 2500) { i--; na++; if (!(s[i].mag <= sc)) sc = s[i].mag; } for (size_t k = i; k < s.size(); k++) a += s[k].mag;
    i = s.size(); while (i > 0 && ts - s[i - 1].ts < 200) { i--; nb++; } for (size_t k = i; k < s.size(); k++) b += s[k].mag;
    b /= (double)nb; s.back().f = b - (a + b) / (double)na; s.back().scale = sc;
  }
  std::vector<Out> steps() {
    std::vector<Out> o; const double thr = .05 * 9.80665;
    for (size_t i = std::max<size_t>(done, 1); i < s.size(); i++) {
      while (s[i - 1].ts - s[first].ts > 1400) first++;
      if (i - first < 3) continue;
      auto close = [&](const S& q) { return std::isfinite(q.scale) && std::fabs(q.f - thr) < std::max(1e-9, 1e-13 * q.scale); };
      bool edge = s[i].ts - possible > 300;
      if (edge && (close(s[i]) || close(s[i - 1]))) tie = true;
      if (edge && s[i - 1].f < thr && s[i].f > thr) {
        possible = s[i].ts; size_t l = i; while (l > first && s[i].ts - s[l].ts <= 700) l--;
        double mn = s[l].f, mx = s[l].f, sc = 1; bool sure = true; for (size_t k = l; k < i; k++) { mn = std::min(mn, s[k].f); mx = std::max(mx, s[k].f); if (!std::isfinite(s[k].f) || !std::isfinite(s[k].scale)) sure = false; else sc = std::max(sc, s[k].scale); }
        o.push_back({possible, mx - mn, sure, sc});
      }
    }
    done = s.size(); return o;
  }
};
}

#ifdef SIM_SOAK
struct App {
  std::unique_ptr<nv::Pedometer> p; std::vector<nv::SensorMeasurement> batch; explicit App(const Trace&) {}
  void make() { batch.clear(); hook::Arm a; p = std::make_unique<nv::Pedometer>(); }
  bool message(const Msg& x) { nv::SensorMeasurement m; m.ts = x.ts; m.values = nv::Vector3d(x.v[0], x.v[1], x.v[2]); batch.push_back(m); return false; }
  bool step(const Op& o) { hook::Arm a; if (o.op == 'N') return !p->calculateSteps().empty(); if (o.n == 1) { p->update(batch); hook::st.armed = false; batch.clear(); } else if (o.n == 2) { auto c = std::make_unique<nv::Pedometer>(*p); p = std::move(c); } return false; }
};
#endif
Result execute(const Trace& t) {
#ifdef SIM_SOAK
  if (t.profile == "C27") { App a(t); return small::soakAlone(t, a); }
#endif
  Result R; small::Obs H; hook::st.fill = 0xA5; hook::Arm arm; auto real = std::make_unique<nv::Pedometer>(); Ref ref; std::vector<nv::SensorMeasurement> batch; ll lastStep = -1, counted = 0; bool judged = true; ll op = -1; std::set<ll> seen; ll cleanFrom = t.par.count("cleanFrom") ? (ll)t.par.at("cleanFrom") : -1, cleanSteps = 0;
  for (auto& o : t.ops) {
    op++; R.calls++;
    if (o.op == 'M') { nv::SensorMeasurement m; m.ts = o.m.ts; m.values = nv::Vector3d(o.m.v[0], o.m.v[1], o.m.v[2]); batch.push_back(m); R.msgs++; }
    else if (o.op == 'R') { real = std::make_unique<nv::Pedometer>(); ref = Ref(); batch.clear(); lastStep = -1; seen.clear(); R.probes["restart"]++; H.disc(-2); }
    else if (o.op == 'X' && o.n == 1) { real->update(batch); for (auto& m : batch) { ref.sample(m.ts, std::sqrt(m.values.x * m.values.x + m.values.y * m.values.y + m.values.z * m.values.z)); seen.insert(m.ts); } R.probes[batch.size() > 1 ? "batched update" : batch.empty() ? "empty update" : "single update"]++; { Hash64 q; q.add((ll)1); q.add((ll)std::min<size_t>(batch.size(), 20)); q.add((ll)std::min<size_t>(ref.s.size() - ref.done, 20)); q.add((ll)std::min<size_t>(ref.s.size() - ref.first, 60)); R.states.insert(q.h); } batch.clear(); }
    else if (o.op == 'X' && o.n == 2) { auto c = std::make_unique<nv::Pedometer>(*real); real = std::move(c); R.probes["moved to a copy"]++; }
    else if (o.op == 'N') {
      size_t pending = ref.s.size() - ref.done; auto got = real->calculateSteps(); auto want = ref.steps(); if (ref.tie) { R.ambiguous = true; judged = false; ref.tie = false; }
      H.disc((ll)got.size()); if (pending > 1 && !want.empty()) R.nontrivial = true; if (!pending) R.probes["call without new samples"]++; counted += (ll)got.size();
      for (size_t i = 0; i < got.size(); i++) {
        H.disc(got[i].ts); H.out(got[i].len); if (got[i].ts >= cleanFrom && cleanFrom >= 0) cleanSteps++;
        if (!seen.count(got[i].ts)) R.fail("step time", "step at " + std::to_string(got[i].ts) + " matches no sample", op);
        if (lastStep >= 0 && got[i].ts - lastStep <= 300) R.fail("steps too close", std::to_string(lastStep) + " and " + std::to_string(got[i].ts), op); lastStep = got[i].ts;
        if (got[i].len < 0) R.fail("step length", dbl(got[i].len), op);
      }
      if (judged) {
        if (got.size() != want.size()) R.fail("step count", std::to_string(got.size()) + " steps from " + std::to_string(pending) + " new samples, the detector finds " + std::to_string(want.size()) + (want.empty() ? "" : " (first at " + std::to_string(want[0].ts) + ")"), op);
        else for (size_t i = 0; i < got.size(); i++) {
          if (got[i].ts != want[i].ts) { R.fail("step time", std::to_string(got[i].ts) + ", expected " + std::to_string(want[i].ts), op); break; }
          if (!want[i].ampSure) { R.probes["length over corrupted samples"]++; continue; }
          double q = got[i].len / .52, amp = q * q * q * q; if (!small::near(amp, want[i].amp, 1e-9 * want[i].scale, 1e-9)) { R.fail("step length", dbl(got[i].len) + ", expected " + dbl(.52 * std::sqrt(std::sqrt(want[i].amp))), op); break; }
        }
      }
      R.probes["steps"] += (ll)want.size(); { Hash64 q; q.add((ll)2); q.add((ll)std::min<size_t>(pending, 40)); q.add((ll)want.size()); R.states.insert(q.h); }
    }
    if (R.violation) break;
  }
  // liveness: in the clean tail of steady walking every step is counted
  if (!R.violation && judged && cleanFrom >= 0 && !batch.size()) { double n = t.par.at("cleanSteps"); bool all = true; size_t k = 0; for (auto& o : t.ops) if (o.op == 'M' && o.m.ts >= cleanFrom) k++; all = k == (size_t)t.par.at("cleanSamples"); ll last = -1; for (auto& o : t.ops) last = o.op == 'M' ? 1 : o.op == 'N' ? 2 : last; 
    if (all && last == 2) { R.probes["steady walk judged"]++; if (std::fabs(cleanSteps - n) > 2.5) R.fail("steady walk", std::to_string(cleanSteps) + " steps counted in a steady walk of " + std::to_string(n), op); } }
  R.hash = H.h.h; R.sig = H.s.h; return R;
}

Trace generate(const std::string& profile, uint64_t seed, ll idx) {
#ifdef SIM_SOAK
  if (profile == "C27") { Rng r(seed * 1000003ull + 47, (uint64_t)idx * 7919 + 27); Trace t = generate("", seed, idx); Op u, c; u.op = 'X'; u.n = 1; c.op = 'N'; (void)u; (void)c; return small::stretch(t, r, r.i(30, 250), {u, c}); }
#endif
  Trace T; T.profile = profile; T.seed = seed; T.index = idx; Rng r(seed * 1000003ull + 31, (uint64_t)idx * 7919 + 22); T.settings.push_back({});
  auto fault = [&](const std::string& k, ll n = 1) { T.faults[k] += n; };
  double hz = r.p(.2) ? r.uni(5, 15) : r.uni(20, 110); ll dur = r.p(.15) ? r.i(50, 1500) : r.i(3000, r.p(.2) ? 60000 : 20000), t0 = r.p(.5) ? r.i(1, 3000) : 1500000000000ll + r.i(0, 1000000000); double t = 0; bool tail = r.p(.3);
  std::vector<Msg> in; double ph = 0, g = 9.80665; double f = 2, A = 3; ll segEnd = 0; bool walk = true; double ax = r.uni(-1, 1), ay = r.uni(-1, 1), az = r.uni(.2, 1), an = std::sqrt(ax * ax + ay * ay + az * az); double noise = r.p(.3) ? 0 : r.uni(0, .8), jit = r.p(.5) ? r.uni(0, .9) : 0; bool same = r.p(.1); ll burst = 0;
  auto sample = [&](ll ts, double m) { Msg x; x.kind = MK_SENSOR; x.type = ST_ACC; x.ts = ts; x.v[0] = m * ax / an; x.v[1] = m * ay / an; x.v[2] = m * az / an; return x; };
  while (t < dur) {
    if (t >= segEnd) { segEnd = (ll)t + r.i(500, 8000); walk = r.p(.75); f = r.uni(.8, 4); A = r.p(.2) ? r.uni(.3, 1) : r.uni(1, 8); }
    ph += 2 * M_PI * f / hz; double m = g + (walk ? A * std::sin(ph) + (r.p(.0) ? 0 : .3 * A * std::sin(2 * ph + 1)) : 0) + noise * r.gauss(); in.push_back(sample(t0 + (ll)t, std::max(0., m)));
    double dt = 1000 / hz * (1 + jit * r.uni(-1, 1)); if (same && r.p(.1)) dt = 0; t += dt; }
  small::Transport tr(r, T); tr.late = 0; auto del = tr.deliver(in, false); std::vector<Msg> d; for (auto& x : del) d.push_back(x.second);
  if (tr.corrupt > 0) for (auto& m : d) if (r.p(tr.corrupt)) { static const std::vector<double> bad{NAN, INFINITY, -INFINITY, 0, 1e300, -1e160, 1e9, 500, -70}; double b = r.pick(bad); int k = (int)r.i(0, 3); if (k == 3) m.v[0] = m.v[1] = m.v[2] = b; else m.v[k] = b; fault("sample corrupted"); }
  if (tr.jump) { size_t at = d.empty() ? 0 : (size_t)r.i(0, (ll)d.size() - 1); ll j = r.i(1, 100000); for (size_t i = at; i < d.size(); i++) d[i].ts += j; fault("clock jumped ahead"); }
  if (r.p(.1)) { double k = r.uni(.9, 1.1); ll b = d.empty() ? 0 : d[0].ts; for (auto& m : d) m.ts = b + (ll)((m.ts - b) * k); fault("clock skewed"); }
  int mode = (int)r.i(0, 5); double pU = mode == 0 ? 1 : mode == 1 ? r.uni(.3, .9) : r.uni(.02, .3), pN = r.p(.3) ? 1 : r.uni(.1, .9); auto op = [&](char c, ll n = 0) { Op o; o.op = c; o.n = n; T.ops.push_back(o); };
  double pC = r.p(.3) ? .02 : 0, pR = r.p(.15) ? .003 : 0; size_t hold = 0;
  if (mode == 5) { pU = 0; pN = 0; }   // everything in one update
  auto put = [&](const Msg& m) {
    Op o; o.op = 'M'; o.m = m; T.ops.push_back(o); if (hold > 0) { hold--; return; } if (r.p(.002)) { hold = (size_t)r.i(5, 200); fault("reader stalled"); }
    if (r.p(pU)) { op('X', 1); if (r.p(pN)) { op('N'); if (r.p(.05)) op('N'); } else fault("several updates before a calculation"); if (r.p(.02)) op('X', 1); }
    if (pC > 0 && r.p(pC)) { op('X', 2); fault("moved to a copy"); } if (pR > 0 && r.p(pR)) { op('R'); fault("restart"); }
  };
  for (auto& m : d) put(m);
  if (tail && !d.empty()) {   // faults stop: 5 s to settle, then a steady walk
    double tt = (double)d.back().ts + 20, fs = r.uni(1.4, 2.2), As = r.uni(3, 6), p = 0, h = r.uni(50, 100); ll from = (ll)tt + 5000, end = from + 12000; ll n = 0; while (tt < end) { p += 2 * M_PI * fs / h; ll ts = (ll)tt; if (ts >= from) n++; put(sample(ts, g + As * std::sin(p))); tt += 1000 / h; }
    T.par["cleanFrom"] = (double)from; T.par["cleanSteps"] = 12 * fs; T.par["cleanSamples"] = (double)n; for (size_t i = T.ops.size(); i-- > 0;) if (T.ops[i].op == 'R' && 0) break;
    ll lastR = -1; for (size_t i = 0; i < T.ops.size(); i++) if (T.ops[i].op == 'R') lastR = (ll)i; ll firstClean = -1; for (size_t i = 0; i < T.ops.size(); i++) if (T.ops[i].op == 'M' && T.ops[i].m.ts >= from - 4000) { firstClean = (ll)i; break; } if (lastR >= firstClean) T.par.erase("cleanFrom");
  }
  op('X', 1); op('N'); T.simMs = T.ops.empty() || d.empty() ? 0 : d.back().ts - d.front().ts; return T;
}
int main(int argc, char** argv) { return proto::mainLoop(argc, argv); }
