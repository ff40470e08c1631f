// C24: the standalone position estimator: signals of a walker over a faulty transport, cut into packets at random.
#include <measurement_preprocessor.h>
#include <nearest_transmitter_estimator.h>
#include <memory>
#include "../main.hpp"
#include "../small.hpp"
#ifdef SIM_SOAK
#include "../small_soak.hpp"
#endif
namespace nv = navigine::navigation_core;

namespace {
struct Sig { ll ts; int type; std::string id; double rssi, dist; };
struct RefPre {   // windows of eligible signals
  ll avgMs, shiftMs, keepMs; bool wifi, ble; ll cur = -1, last = -1, any = -1; std::vector<Sig> held;
  RefPre(double a, double s, bool w, bool b) : wifi(w), ble(b) { avgMs = (ll)(1000 * a); shiftMs = (ll)(1000 * s); if (shiftMs == 0 || shiftMs > avgMs) shiftMs = avgMs; keepMs = avgMs - shiftMs; }
  bool eligible(const Sig& s) const { return (s.type ? ble : wifi) && s.rssi > -100 && s.rssi < 0; }
  void add(const Sig& s) { if (eligible(s)) { if (cur == -1) cur = last = s.ts; if (s.ts > last) held.push_back(s); cur = std::max(cur, s.ts); } any = std::max(any, s.ts); }
  bool due() const { return cur - last >= shiftMs; }
  std::vector<Sig> take() {   // average per transmitter, then keep what the next window shares
    std::map<std::string, std::vector<Sig>> by; for (auto& s : held) by[s.id].push_back(s); std::vector<Sig> o; last = cur;
    for (auto& b : by) { Sig a = b.second[0]; a.rssi = a.dist = 0; a.ts = b.second[0].ts; for (auto& s : b.second) { a.rssi += s.rssi; a.dist += s.dist; a.ts = std::max(a.ts, s.ts); if (s.type != a.type) a.type = -1; } a.rssi /= (double)b.second.size(); a.dist /= (double)b.second.size(); o.push_back(a); }
    if (!keepMs) held.clear(); else { std::vector<Sig> k; for (auto& s : held) if (s.ts >= cur - keepMs) k.push_back(s); held = k; }
    std::sort(o.begin(), o.end(), [](const Sig& a, const Sig& b) { return a.rssi != b.rssi ? a.rssi > b.rssi : a.id < b.id; }); return o;
  }
};
struct RefPos { double x = 0, y = 0, prec = 0; bool empty = true; ll ts = -1; };
struct RefTrack {
  bool started = false; double vx = 0, vy = 0; RefPos p;
  RefPos step(RefPos n) {
    if (n.ts <= p.ts) return p;
    double t = (double)(n.ts - p.ts) / 1000, a = .18, b = a * a / (2 - a);
    if (!started || t > 10) { started = true; vx = vy = 0; return p = n; }
    double px = p.x + vx * t, py = p.y + vy * t, rx = n.x - px, ry = n.y - py; vx += b / t * rx; vy += b / t * ry; n.x = px + a * rx; n.y = py + a * ry; return p = n;
  }
};
}

#ifdef SIM_SOAK
struct App {
  const Trace& t; std::unique_ptr<nv::MeasurementsPreprocessor> P; std::unique_ptr<nv::NearestTransmitterPositionEstimator> E; std::vector<nv::Transmitter> txs;
  explicit App(const Trace& x) : t(x) { for (auto& L : t.world) for (auto& x : L.tx) { nv::Transmitter q; q.id = x.id; q.x = x.lat; q.y = x.lon; q.type = x.type ? nv::Transmitter::Type::BEACON : nv::Transmitter::Type::WIFI; txs.push_back(q); } }
  void make() { hook::Arm a; P = t.par.count("default") ? std::make_unique<nv::MeasurementsPreprocessor>() : std::make_unique<nv::MeasurementsPreprocessor>(t.par.at("avg"), t.par.at("shift"), t.par.at("wifi") != 0, t.par.at("ble") != 0); E = std::make_unique<nv::NearestTransmitterPositionEstimator>(txs); }
  bool message(const Msg& x) { nv::RadioMeasurement m; m.type = x.type ? nv::RadioMeasurement::Type::BEACON : nv::RadioMeasurement::Type::WIFI; m.ts = x.ts; m.id = x.id; m.rssi = x.v[0]; m.power = x.v[1]; m.distance = x.v[2]; hook::Arm a; P->update(m); return false; }
  bool step(const Op& o) { hook::Arm a; if (o.op == 'N') { auto g = P->extractRadioMeasurements(); return !E->calculatePosition(g).isEmpty && !g.empty(); } if (o.n == 2) { auto a = std::make_unique<nv::MeasurementsPreprocessor>(*P); P = std::move(a); auto b = std::make_unique<nv::NearestTransmitterPositionEstimator>(*E); E = std::move(b); } return false; }
};
#endif
Result execute(const Trace& t) {
#ifdef SIM_SOAK
  if (t.profile == "C27") { App a(t); return small::soakAlone(t, a); }
#endif
  Result R; small::Obs H; hook::st.fill = 0xA5; hook::Arm arm; bool dflt = t.par.count("default"); double avg = dflt ? 3 : t.par.at("avg"), sh = dflt ? 2 : t.par.at("shift"); bool wifi = dflt || t.par.at("wifi") != 0, ble = dflt || t.par.at("ble") != 0;
  std::vector<nv::Transmitter> txs; std::map<std::string, std::pair<double, double>> known; for (auto& L : t.world) for (auto& x : L.tx) { nv::Transmitter q; q.id = x.id; q.x = x.lat; q.y = x.lon; q.type = x.type ? nv::Transmitter::Type::BEACON : nv::Transmitter::Type::WIFI; txs.push_back(q); known[x.id] = {x.lat, x.lon}; }
  auto pre = [&] { return dflt ? std::make_unique<nv::MeasurementsPreprocessor>() : std::make_unique<nv::MeasurementsPreprocessor>(avg, sh, wifi, ble); }; auto est = [&] { return std::make_unique<nv::NearestTransmitterPositionEstimator>(txs); };
  auto P = pre(); auto E = est(); RefPre rp(avg, sh, wifi, ble); RefTrack rt; ll op = -1, lastTs = -1; bool sure = true; std::vector<nv::RadioMeasurement> prev;
  auto compute = [&](const std::vector<nv::RadioMeasurement>& pk) {
    nv::Position g = E->calculatePosition(pk); H.disc((ll)g.isEmpty); H.out(g.x); H.out(g.y); H.out(g.precision); H.disc(g.ts);
    std::vector<const nv::RadioMeasurement*> reg; for (auto& m : pk) if (known.count(m.id)) reg.push_back(&m);
    if (reg.empty()) { R.probes["no known transmitter"]++; if (!g.isEmpty) R.fail("position from nothing", "at " + dbl(g.x) + "," + dbl(g.y) + " without a known transmitter", op); return; }
    double best = -1e300; ll ts = -1; for (auto m : reg) { best = std::max(best, m->rssi); ts = std::max(ts, m->ts); } std::vector<RefTrack> next; std::vector<RefPos> want; std::set<std::string> ids;
    for (auto m : reg) if (m->rssi >= best - 1e-9 && ids.insert(m->id).second) { RefTrack q = rt; RefPos n; n.x = known[m->id].first; n.y = known[m->id].second; n.prec = std::sqrt(std::exp((-82 - m->rssi) / 3)) + 1; n.empty = false; n.ts = ts; want.push_back(q.step(n)); next.push_back(q); }
    if (want.size() > 1) R.probes["tie between transmitters"]++; if (ts <= rt.p.ts) R.probes["packet not newer"]++; else if (rt.started && ts - rt.p.ts > 10000) R.probes["track restarted after a gap"]++; else if (rt.started) { R.probes["track smoothed"]++; R.nontrivial = true; }
    bool hit = false; for (size_t i = 0; i < want.size() && !hit; i++) { auto& w = want[i]; if (w.empty == g.isEmpty && small::near(g.x, w.x, 1e-7, 1e-9) && small::near(g.y, w.y, 1e-7, 1e-9) && w.ts == g.ts && (i + 1 <= want.size() && small::near(g.precision, w.prec, 1e-9, 1e-9))) { hit = true; rt = next[i]; } }
    if (!hit) R.fail("position", "at " + dbl(g.x) + "," + dbl(g.y) + " precision " + dbl(g.precision) + " ts " + std::to_string(g.ts) + ", expected " + dbl(want[0].x) + "," + dbl(want[0].y) + " precision " + dbl(want[0].prec) + " ts " + std::to_string(want[0].ts), op);
    if (!g.isEmpty) { if (g.ts < lastTs) R.fail("time runs backwards", std::to_string(lastTs) + " then " + std::to_string(g.ts), op); lastTs = g.ts; if (!std::isfinite(g.x) || !std::isfinite(g.y) || !(g.precision >= 1)) R.fail("position not finite", dbl(g.x) + " " + dbl(g.y) + " " + dbl(g.precision), op); }
  };
  for (auto& o : t.ops) {
    op++;
    if (o.op == 'M') { R.msgs++; nv::RadioMeasurement m; m.type = o.m.type ? nv::RadioMeasurement::Type::BEACON : nv::RadioMeasurement::Type::WIFI; m.ts = o.m.ts; m.id = o.m.id; m.rssi = o.m.v[0]; m.power = o.m.v[1]; m.distance = o.m.v[2]; P->update(m); Sig s{o.m.ts, o.m.type, o.m.id, o.m.v[0], o.m.v[2]}; if (!rp.eligible(s)) R.probes["ineligible signal"]++; else if (rp.cur != -1 && s.ts <= rp.last) R.probes["signal older than the window"]++; rp.add(s); if (P->getCurrentTs() != rp.any) R.fail("current time", std::to_string(P->getCurrentTs()) + ", expected " + std::to_string(rp.any), op); }
    else if (o.op == 'R') { P = pre(); E = est(); rp = RefPre(avg, sh, wifi, ble); rt = RefTrack(); lastTs = -1; prev.clear(); R.probes["restart"]++; H.disc(-2); }
    else if (o.op == 'X' && o.n == 2) { auto a = std::make_unique<nv::MeasurementsPreprocessor>(*P); P = std::move(a); auto b = std::make_unique<nv::NearestTransmitterPositionEstimator>(*E); E = std::move(b); R.probes["moved to a copy"]++; }
    else if (o.op == 'X' && o.n == 3) { if (!prev.empty()) { R.probes["packet computed again"]++; compute(prev); } }
    else if (o.op == 'N') {
      R.calls++; bool due = rp.due(); auto got = P->extractRadioMeasurements(); auto all = due ? rp.take() : std::vector<Sig>(); size_t n = std::min<size_t>(5, all.size()); H.disc((ll)got.size());
      { Hash64 q; q.add((ll)due); q.add((ll)std::min<size_t>(all.size(), 8)); q.add((ll)std::min<size_t>(rp.held.size(), 30)); q.add((ll)rt.started); R.states.insert(q.h); }
      if (got.size() != n) R.fail(due ? "packet size" : "packet before the window is full", std::to_string(got.size()) + " transmitters, expected " + std::to_string(n), op);
      else { if (all.size() > 5) R.probes["only the closest five kept"]++; if (due) R.probes["window averaged"]++;
        std::map<std::string, Sig> w; for (auto& s : all) w[s.id] = s; std::set<std::string> used; double low = 1e300;
        for (auto& m : got) { H.disc(m.ts); H.out(m.rssi); H.out(m.distance); H.s.add(m.id); if (!w.count(m.id) || !used.insert(m.id).second) { R.fail("foreign signal in the packet", m.id, op); break; } auto& s = w[m.id]; low = std::min(low, m.rssi); if (!small::near(m.rssi, s.rssi, 1e-9) || !small::near(m.distance, s.dist, 1e-9, 1e-9) || m.ts != s.ts) { R.fail("average", m.id + ": rssi " + dbl(m.rssi) + " distance " + dbl(m.distance) + " ts " + std::to_string(m.ts) + ", expected " + dbl(s.rssi) + " " + dbl(s.dist) + " " + std::to_string(s.ts), op); break; } if (s.type >= 0 && m.type != (s.type ? nv::RadioMeasurement::Type::BEACON : nv::RadioMeasurement::Type::WIFI)) R.fail("signal type", m.id, op); }
        for (auto& s : all) if (!used.count(s.id) && !got.empty() && s.rssi > low + 1e-9) { R.fail("closest transmitters", s.id + " is stronger than one that was kept", op); break; } }
      if (!R.violation) { if (!got.empty() || o.k) compute(got); if (!got.empty()) prev = got; }
    }
    if (R.violation) break;
  }
  R.hash = H.h.h; R.sig = H.s.h; return R;
}

Trace generate(const std::string& profile, uint64_t seed, ll idx) {
#ifdef SIM_SOAK
  if (profile == "C27") { Rng r(seed * 1000003ull + 47, (uint64_t)idx * 7919 + 27); Trace t = generate("", seed, idx); Op u, c; u.op = 'X'; u.n = 1; c.op = 'N'; (void)u; (void)c; return small::stretch(t, r, r.i(30, 250), {c}); }
#endif
  Trace T; T.profile = profile; T.seed = seed; T.index = idx; Rng r(seed * 1000003ull + 41, (uint64_t)idx * 7919 + 24); T.settings.push_back({});
  auto fault = [&](const std::string& k, ll n = 1) { T.faults[k] += n; };
  if (r.p(.3)) T.par["default"] = 1; else { T.par["avg"] = r.p(.05) ? 0 : .25 * (double)r.i(1, 24); T.par["shift"] = r.p(.1) ? 0 : .25 * (double)r.i(1, 24); T.par["wifi"] = r.p(.8); T.par["ble"] = r.p(.8); }
  WLevel L; L.id = "L"; ll n = r.p(.1) ? r.i(0, 2) : r.i(1, r.p(.3) ? 30 : 10); for (ll i = 0; i < n; i++) { WTx x{}; x.id = "t" + std::to_string(i); x.lat = r.uni(-50, 50); x.lon = r.uni(-50, 50); x.type = (int)r.i(0, 1); L.tx.push_back(x); } T.world.push_back(L); std::vector<WTx> foreign; if (r.p(.6)) for (ll i = 0; i < r.i(1, 6); i++) { WTx x{}; x.id = r.p(.2) ? "" : "f" + std::to_string(i); x.lat = r.uni(-50, 50); x.lon = r.uni(-50, 50); x.type = (int)r.i(0, 1); foreign.push_back(x); }
  ll dur = r.i(1000, r.p(.3) ? 90000 : 25000), t0 = r.p(.5) ? r.i(1, 3000) : 1500000000000ll + r.i(0, 1000000000); double px = r.uni(-40, 40), py = r.uni(-40, 40), vx = 0, vy = 0, per = r.p(.2) ? r.uni(1000, 15000) : r.uni(60, 1200); bool integer = r.p(.4); double noise = r.uni(0, 6), back = r.p(.3) ? r.uni(15, 30) : 0; std::vector<Msg> in; std::vector<const WTx*> all; for (auto& x : T.world[0].tx) all.push_back(&x); for (auto& x : foreign) all.push_back(&x);
  if (!all.empty()) for (double t = 0; t < dur;) {
    double dt = per / (double)all.size() * r.uni(.2, 1.8); t += dt; if (r.p(.02)) { vx = r.uni(-1.5, 1.5); vy = r.uni(-1.5, 1.5); } px += vx * dt / 1000; py += vy * dt / 1000;
    const WTx* x = all[(size_t)r.i(0, (ll)all.size() - 1)]; double d = std::hypot(px - x->lat, py - x->lon); Msg m; m.kind = MK_RADIO; m.type = x->type; m.id = x->id; m.ts = t0 + (ll)t; m.v[0] = -60 - back - 20 * std::log10(std::max(.3, d)) + noise * r.gauss(); if (integer) m.v[0] = std::round(m.v[0]); m.v[1] = -59; m.v[2] = r.p(.5) ? d : 0; if (r.p(.02)) { m.v[0] = r.p(.5) ? r.uni(-130, -99) : r.uni(-1, 20); fault("out of range signal"); } in.push_back(m); }
  small::Transport tr(r, T); auto del = tr.deliver(in, r.p(.7)); std::vector<Msg> d; for (auto& x : del) d.push_back(x.second);
  if (tr.corrupt > 0) for (auto& m : d) if (r.p(tr.corrupt)) { static const std::vector<double> bad{NAN, INFINITY, -INFINITY, 0, -100, 1e300, -1e300, -0.0001, 5, -99.999}; m.v[0] = r.pick(bad); fault("signal corrupted"); }
  if (tr.jump && !d.empty()) { size_t at = (size_t)r.i(0, (ll)d.size() - 1); ll j = r.i(1, r.p(.5) ? 3000 : 100000); bool backOnce = r.p(.3); for (size_t i = at; i < d.size(); i++) { if (backOnce && i > at + 20) break; d[i].ts += j; } fault(backOnce ? "clock jumped and was set back" : "clock jumped ahead"); }
  int mode = (int)r.i(0, 3); double pN = mode <= 1 ? 1 : mode == 2 ? r.uni(.2, .9) : r.uni(.01, .2), pC = r.p(.3) ? .02 : 0, pR = r.p(.15) ? .004 : 0, pX = r.p(.3) ? .05 : 0; size_t hold = 0; auto op = [&](char c, ll nn = 0, ll k = 0) { Op o; o.op = c; o.n = nn; o.k = k; T.ops.push_back(o); };
  for (auto& m : d) { Op o; o.m = m; T.ops.push_back(o); if (hold) { hold--; continue; } if (r.p(.003)) { hold = (size_t)r.i(5, 120); fault("reader stalled"); } if (r.p(pN)) op('N', 0, r.p(.1)); if (pX > 0 && r.p(pX)) op('X', 3); if (pC > 0 && r.p(pC)) { op('X', 2); fault("moved to a copy"); } if (pR > 0 && r.p(pR)) { op('R'); fault("restart"); } }
  op('N', 0, 1); T.simMs = dur; return T;
}
int main(int argc, char** argv) { return proto::mainLoop(argc, argv); }
