// C25: standalone trilateration. Rounds of measurements over a faulty transport on one long-lived object, with beacon
// lists that change between rounds; every round is compared with a computation from its own input alone.
#include <trilateration.h>
#include <cstring>
#include <memory>
#include "../main.hpp"
#include "../small.hpp"
#ifdef SIM_SOAK
#include "../small_soak.hpp"
#endif

// M: a measurement joins the batch; X 1: hand the batch over; X 2: continue on a copy; X 3 k: load the beacons of floor k; N: calculate; R: restart
#ifdef SIM_SOAK
struct App {
  const Trace& t; std::unique_ptr<Trilateration> T; std::vector<BeaconMeas> batch; Beacon dummy; explicit App(const Trace& x) : t(x) {}
  void make() { batch.clear(); hook::Arm a; T = std::make_unique<Trilateration>(); }
  bool message(const Msg& m) { BeaconMeas b(&dummy, m.v[0], m.v[2]); b.setBeaconPtr(nullptr); b.setBeaconId(m.id); batch.push_back(b); return false; }
  bool step(const Op& o) {
    if (o.op == 'N') { hook::Arm a; bool ok = T->calculateCoordinates() == 0; const char* e = T->getErrorMessage(); (void)e; return ok; }
    if (o.n == 1) { { hook::Arm a; T->updateMeasurements(batch); } if (!o.k || batch.size() > 500) batch.clear(); }
    else if (o.n == 2) { hook::Arm a; auto c = std::make_unique<Trilateration>(*T); T = std::move(c); }
    else if (o.n == 3) { std::vector<Beacon> bs; for (auto& x : t.world.at((size_t)o.k).tx) { Beacon b; b.fillData(x.lat, x.lon, x.id, "beacon", "floor"); bs.push_back(b); } hook::Arm a; T->fillLocationBeacons(bs); }
    return false;
  }
};
#endif
Result execute(const Trace& t) {
#ifdef SIM_SOAK
  if (t.profile == "C27") { App a(t); return small::soakAlone(t, a); }
#endif
  Result R; small::Obs H; hook::st.fill = 0xA5; hook::Arm arm; auto T = std::make_unique<Trilateration>(); auto P = std::make_unique<Trilateration>(); std::vector<BeaconMeas> batch; struct In { std::string id; double rssi, dist; }; std::vector<In> cur, next; int floor = -1; ll op = -1, ok = 0; Beacon dummy; dummy.fillData(777, 777, "other", "n", "l"); std::set<ll> codes;
  for (auto& o : t.ops) {
    op++;
    if (o.op == 'M') {
      R.msgs++; if (o.m.n1 == 1) { Beacon b; b.setBeaconId(o.m.id); BeaconMeas m(&b, o.m.v[0], o.m.v[2]); m.setBeaconPtr(nullptr); batch.push_back(m); } else if (o.m.n1 == 2) { BeaconMeas m(&dummy, o.m.v[0], o.m.v[2]); m.setBeaconId(o.m.id); batch.push_back(m); } else { BeaconMeas m; m.setBeaconId(o.m.id); m.setRssi(o.m.v[0]); m.setDistance(o.m.v[2]); batch.push_back(m); }
      next.push_back({o.m.id, o.m.v[0], o.m.v[2]});
    } else if (o.op == 'X' && o.n == 1) { T->updateMeasurements(batch); cur = next; if (o.k) R.probes["measurements kept for another round"]++; else { batch.clear(); next.clear(); } }
    else if (o.op == 'X' && o.n == 2) { auto c = std::make_unique<Trilateration>(*T); T = std::move(c); R.probes["moved to a copy"]++; }
    else if (o.op == 'X' && o.n == 3) { floor = (int)o.k; std::vector<Beacon> bs; for (auto& x : t.world.at((size_t)o.k).tx) { Beacon b; b.fillData(x.lat, x.lon, x.id, "beacon", "floor"); bs.push_back(b); } T->fillLocationBeacons(bs); for (auto& b : bs) { b.setX(NAN); b.setY(NAN); } R.probes["beacons loaded"]++; }
    else if (o.op == 'R') { T = std::make_unique<Trilateration>(); cur.clear(); floor = -1; R.probes["restart"]++; }
    else if (o.op == 'N') {
      R.calls++; int rc = T->calculateCoordinates(); double x = T->getX(), y = T->getY(); H.disc(rc); codes.insert(rc);
      bool bad = false; std::map<std::string, std::pair<double, ll>> by; for (auto& m : cur) { if (!std::isfinite(m.dist) || m.dist < 0) bad = true; by[m.id].first += m.dist; by[m.id].second++; }
      int want = 0; double sw = 0, sx = 0, sy = 0, mxx = 1; size_t used = 0; double lx = 1e300, hx = -1e300, ly = 1e300, hy = -1e300;
      if (bad) want = 28; else if (by.size() < 3) want = 4; else {
        for (auto& b : by) { const WTx* p = nullptr; if (floor >= 0) for (auto& q : t.world[(size_t)floor].tx) if (q.id == b.first) { p = &q; break; } if (!p) continue; double w = 1 / std::max(b.second.first / (double)b.second.second, 1e-6); sw += w; sx += w * p->lat; sy += w * p->lon; used++; lx = std::min(lx, p->lat); hx = std::max(hx, p->lat); ly = std::min(ly, p->lon); hy = std::max(hy, p->lon); mxx = std::max({mxx, std::fabs(p->lat), std::fabs(p->lon)}); }
        if (!used) want = 4; }
      R.probes[want == 28 ? "bad distance" : want == 4 ? (by.size() < 3 ? "too few beacons" : "no known beacon") : "position"]++; if (want == 0) { if (used < by.size()) R.probes["unknown beacons ignored"]++; if (by.size() < cur.size()) R.probes["repeated measurements averaged"]++; ok++; }
      { Hash64 q; q.add((ll)want); q.add((ll)std::min<size_t>(by.size(), 12)); q.add((ll)std::min<size_t>(used, 12)); q.add((ll)(by.size() < cur.size())); q.add((ll)std::min<ll>(ok, 3)); R.states.insert(q.h); } H.s.add((ll)used); H.s.add((ll)by.size());
      if (rc != want) R.fail("error code", std::to_string(rc) + ", expected " + std::to_string(want) + " for " + std::to_string(by.size()) + " beacons", op);
      else if (rc == 0) { H.out(x); H.out(y); double ex = sx / sw, ey = sy / sw, tol = 1e-9 * mxx; if (!small::near(x, ex, tol) || !small::near(y, ey, tol)) R.fail("position", dbl(x) + "," + dbl(y) + ", expected " + dbl(ex) + "," + dbl(ey), op); else if (x < lx - tol || x > hx + tol || y < ly - tol || y > hy + tol) R.fail("outside the beacons", dbl(x) + "," + dbl(y), op); }
      else if (!T->getErrorMessage()) R.fail("no message", "", op);
    }
    if (R.violation) break;
  }
  R.nontrivial = ok >= 2 && codes.size() >= 2; R.hash = H.h.h; R.sig = H.s.h; return R;
}

Trace generate(const std::string& profile, uint64_t seed, ll idx) {
#ifdef SIM_SOAK
  if (profile == "C27") { Rng r(seed * 1000003ull + 47, (uint64_t)idx * 7919 + 27); Trace t = generate("", seed, idx); Op u, c; u.op = 'X'; u.n = 1; c.op = 'N'; (void)u; (void)c; return small::stretch(t, r, r.i(30, 250), {u, c}); }
#endif
  Trace T; T.profile = profile; T.seed = seed; T.index = idx; Rng r(seed * 1000003ull + 43, (uint64_t)idx * 7919 + 25); T.settings.push_back({});
  auto fault = [&](const std::string& k, ll n = 1) { T.faults[k] += n; }; ll floors = r.i(1, 3); std::vector<std::string> names; double size = r.p(.1) ? 1e5 : r.uni(5, 200);
  for (ll f = 0; f < floors; f++) { WLevel L; L.id = "F" + std::to_string(f); ll n = r.p(.1) ? r.i(0, 3) : r.i(3, r.p(.2) ? 40 : 10); for (ll i = 0; i < n; i++) { WTx x{}; x.id = !names.empty() && r.p(.25) ? r.pick(names) : "(" + std::to_string(r.i(1, 99999)) + "," + std::to_string(r.i(1, 9)) + ")"; x.lat = r.uni(-size, size); x.lon = r.uni(-size, size); if (r.p(.03)) { x.lat = x.lon = 0; } names.push_back(x.id); L.tx.push_back(x); } T.world.push_back(L); }
  auto op = [&](char c, ll n = 0, ll k = 0) { Op o; o.op = c; o.n = n; o.k = k; T.ops.push_back(o); }; if (r.p(.95)) op('X', 3, 0); ll floor = 0, rounds = r.i(1, r.p(.2) ? 40 : 10), t = 0; double px = r.uni(-size, size), py = r.uni(-size, size), loss = r.p(.6) ? r.uni(0, .8) : 0, dup = r.p(.5) ? r.uni(0, .6) : 0, noise = r.uni(0, .4), pBad = r.p(.4) ? r.uni(.01, .15) : 0, pUnk = r.p(.5) ? r.uni(.05, .6) : 0, pC = r.p(.3) ? .2 : 0, pR = r.p(.1) ? .1 : 0; std::vector<Msg> late;
  for (ll k = 0; k < rounds; k++) {
    px += r.gauss(); py += r.gauss(); t += r.i(100, 3000); std::vector<Msg> ms = late; late.clear(); ll hear = r.p(.1) ? r.i(0, floors - 1) : floor;
    for (auto& x : T.world[(size_t)hear].tx) { if (loss > 0 && r.p(loss)) { fault("measurement lost"); continue; } ll n = dup > 0 && r.p(dup) ? r.i(2, 5) : 1; if (n > 1) fault("measurement repeated", n - 1); for (ll j = 0; j < n; j++) { Msg m; m.kind = MK_RADIO; m.id = x.id; m.ts = t; double d = std::hypot(px - x.lat, py - x.lon) * std::exp(noise * r.gauss()); if (r.p(.03)) d = 0; if (r.p(.02)) d = r.p(.5) ? 1e-9 : 1e12; m.v[0] = r.uni(-100, -30); m.v[2] = d; m.n1 = (int)r.i(0, 2); if (loss > 0 && r.p(.05)) { late.push_back(m); fault("measurement late"); } else ms.push_back(m); } }
    if (pUnk > 0) for (ll j = r.i(0, 4); j-- > 0;) if (r.p(pUnk)) { Msg m; m.kind = MK_RADIO; m.id = r.p(.2) ? "" : r.p(.3) && !names.empty() ? r.pick(names) + "x" : "unknown" + std::to_string(r.i(0, 3)); m.v[0] = -50; m.v[2] = r.uni(0, 20); m.n1 = (int)r.i(0, 2); ms.push_back(m); fault("unknown beacon heard"); }
    if (pBad > 0 && r.p(.4)) for (auto& m : ms) if (r.p(pBad)) { static const std::vector<double> bad{-1, -1e-12, NAN, INFINITY, -INFINITY, -1e9}; m.v[2] = r.pick(bad); fault("distance corrupted"); }
    if (r.p(.7)) { for (size_t i = ms.size(); i > 1; i--) std::swap(ms[i - 1], ms[(size_t)r.i(0, (ll)i - 1)]); if (ms.size() > 1) fault("reordered"); }
    for (auto& m : ms) { Op o; o.m = m; T.ops.push_back(o); } bool order = r.p(.2); bool change = r.p(.15); if (change) floor = r.i(0, floors - 1);
    if (order && change) op('X', 3, floor); op('X', 1, r.p(.1)); if (!order && change) op('X', 3, floor); if (pC > 0 && r.p(pC)) { op('X', 2); fault("moved to a copy"); } op('N'); if (r.p(.15)) { if (r.p(.5)) { floor = r.i(0, floors - 1); op('X', 3, floor); } op('N'); fault("calculated again"); } if (pR > 0 && r.p(pR)) { op('R'); fault("restart"); if (r.p(.8)) op('X', 3, floor); }
  }
  T.simMs = t; return T;
}
int main(int argc, char** argv) { return proto::mainLoop(argc, argv); }
