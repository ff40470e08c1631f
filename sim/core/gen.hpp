// Seeded generators: a physical world (levels, transmitters, a walker with phone sensors), a faulty delivery of the
// measurements to the clients, and one settings mix per client. Everything is decided here by one PRNG and written
// into the trace as plain data.
#pragma once
#include "model.hpp"

namespace gen {

struct Knobs {
  // world
  int minLevels = 1, maxLevels = 3; double shiftedFrames = 0.5, otherBuilding = 0.15; int minTx = 4, maxTx = 8; int minRp = 0, maxRp = 0;
  double sharedTx = 0.1, locators = 0.0, area = 0.3; bool graph = false; double bigW = 60;
  bool rtt = false; int radioKinds = 1;   // 1: BLE only, 2: wifi only, 3: any
  // motion
  double simS = 60; double standP = 0.4; double levelChangeEvery = 25; double speed = 1.2;
  // sources (Hz; 0 = none)
  double radioHz = 3, accHz = 0, gyroHz = 0, magHz = 0, baroHz = 0, gpsHz = 0, oriHz = 0, nmeaHz = 0;
  double radioNoise = 3, gpsNoise = 4, baroNoise = 0.02; double foreign = 0;
  // faults: probability that the kind is enabled in a run, and its rate when enabled
  double radioLate = 0, pDrop = 0.4, pDup = 0.3, pDelay = 0.3, pBurst = 0.3, pOutage = 0.4, pCorrupt = 0, pJump = 0.2, pBackJump = 0, pSkew = 0.2, pNonfinite = 0.2;
  double outageMaxS = 20; double pSorted = 0.6; bool crossBatchOld = true; double pIneligible = 0.2; double pRestart = 0.1;
  double corruptRate = 0.05; double pInterf = 0.25; bool intRssi = false; double jitter = 0.3; bool baroLie = false; double baroScale = 1; double pDead = .08, pSpike = 0, pAbsurd = 0; double spikeExp = 300;
  ll maxMsgs = 1500; int batch = -1; bool monotone = false; int knn = 0; double pCrowd = .03, pTall = .03, pMarathon = .015;
};

struct Walker {
  struct Seg { double t0, t1; int lvl; double x0, y0, x1, y1; bool moving; };
  std::vector<Seg> segs;
  const Seg& at(double t) const { for (auto& s : segs) if (t < s.t1) return s; return segs.back(); }
  void pos(double t, int& l, double& x, double& y, bool& mv) const { const Seg& s = at(t); double k = s.t1 > s.t0 ? std::min(1.0, std::max(0.0, (t - s.t0) / (s.t1 - s.t0))) : 0; l = s.lvl; x = s.x0 + k * (s.x1 - s.x0); y = s.y0 + k * (s.y1 - s.y0); mv = s.moving; }
};

struct World {   // generation-side geometry in a common metric frame
  struct L { double ox, oy, w, h; double alt; };
  std::vector<L> lv; double blat, blon;
  std::pair<double, double> geo(double x, double y) const { return {blat + y * 360 / model::POLE, model::normLon(blon + x * 360 / (model::EQ * std::cos(blat * M_PI / 180)))}; }
};

struct Gen {
  Rng r; Knobs k; Trace t; World w; Walker wk;
  std::vector<std::map<std::string, int>> radioType;   // per level: tx id -> radio type
  Gen(uint64_t seed, uint64_t stream) : r(seed, stream) {}

  void world() {
    w.blat = r.uni(-65, 65); w.blon = r.uni(-170, 170);
    if (r.p(k.pCrowd)) { k.minTx = 20; k.maxTx = 60; if (k.maxRp > 0) k.maxRp = 60; k.radioHz *= .25; }
    if (k.maxLevels > 1 && r.p(k.pTall)) { k.maxLevels = 12; }
    if (r.p(k.pMarathon)) { k.simS *= 12; k.maxMsgs *= 12; k.pRestart *= .3; }
    int n = (int)r.i(k.minLevels, k.maxLevels); bool shift = r.p(k.shiftedFrames);
    double W = r.uni(20, k.bigW), H = r.uni(20, k.bigW); int txn = 0;
    bool edge = r.p(.06); if (edge) { double m = 360 / (model::EQ * std::cos(w.blat * M_PI / 180)); w.blon = r.p(.5) ? 180 - (W + 13.5) * m : -180 + 8.5 * m; }   // the house stands at the date line
    std::vector<int> ids; for (int i = 0; i < 1000; i++) ids.push_back(i); for (int i = 999; i > 0; i--) std::swap(ids[i], ids[r.i(0, i)]);
    std::vector<std::string> names; int ls = r.p(.6) ? 0 : (int)r.i(1, 3); for (int i = 0; i < n; i++) { int v = ids[980 + i]; names.push_back(ls == 0 ? "L" + std::to_string(v) : ls == 1 ? std::to_string(v % 2 ? v : -v) : ls == 2 ? "building 7, floor " + std::to_string(v) : std::string(1 + v % 40, 'b') + std::to_string(v)); }
    int is = r.p(.5) ? 0 : (int)r.i(1, 4); auto txId = [&](int i) -> std::string { char b[80]; switch (is) {   // beacon ids, addresses that differ in case only, numbers that are prefixes of each other
      case 1: snprintf(b, sizeof b, "(%d,%d,F7826DA6-4FA2-4E98-8024-BC5B71E0893E)", i / 7, i % 7); return b; case 2: snprintf(b, sizeof b, i % 2 ? "a4:5e:60:c2:%02x:%02x" : "A4:5E:60:C2:%02X:%02X", i / 2 / 100 + 160, i / 2 % 100 + 100); return b;
      case 3: return std::to_string(i); case 4: return "access point of room " + std::to_string(i); } return "t" + std::to_string(i); };
    for (int i = 0; i < n; i++) {
      World::L g; g.ox = shift ? r.uni(-8, 8) : 0; g.oy = shift ? r.uni(-8, 8) : 0; g.w = shift ? W + r.uni(-5, 5) : W; g.h = shift ? H + r.uni(-5, 5) : H; g.alt = 3.5 * i;
      if (r.p(k.otherBuilding) && !edge) { g.ox += r.p(.5) ? 300 : -300; }
      w.lv.push_back(g);
      WLevel L; L.id = names[i]; L.altitude = g.alt; L.A = r.uni(-85, -60); L.B = r.uni(2, 4);
      WPoly p; auto add = [&](std::vector<std::pair<double, double>>& v, double x, double y) { v.push_back(w.geo(g.ox + x, g.oy + y)); };
      int shape = r.p(k.area) ? (int)r.i(1, 5) : 0;   // 1: L-shaped hall, 2-4: holes, 5: two halls
      if (shape == 1) { double cx = r.uni(.4, .7) * g.w, cy = r.uni(.4, .7) * g.h; add(p.outer, 0, 0); add(p.outer, g.w, 0); add(p.outer, g.w, cy); add(p.outer, cx, cy); add(p.outer, cx, g.h); add(p.outer, 0, g.h); }
      else if (shape == 5) { double cx = r.uni(.3, .6) * g.w; add(p.outer, 0, 0); add(p.outer, cx, 0); add(p.outer, cx, g.h * r.uni(.5, 1)); add(p.outer, 0, g.h); }
      else { add(p.outer, 0, 0); add(p.outer, g.w, 0); add(p.outer, g.w, g.h); add(p.outer, 0, g.h); }
      if (r.p(.5)) std::reverse(p.outer.begin(), p.outer.end());
      p.outer.push_back(p.outer[0]);
      if (shape == 2) { double x0 = r.uni(.2, .35) * g.w, x1 = r.uni(.45, .8) * g.w, y0 = r.uni(.2, .35) * g.h, y1 = r.uni(.45, .8) * g.h; p.inners.push_back({}); auto& h = p.inners.back(); add(h, x0, y0); add(h, x1, y0); add(h, x1, y1); add(h, x0, y1); h.push_back(h[0]); }
      if (shape == 3 || shape == 4) for (int q = 0; q < shape - 2; q++) {   // convex holes of three to six corners, side by side
        double lo = shape == 3 ? .1 : .05 + .47 * q, hi = shape == 3 ? .9 : .48 + .47 * q, cx = (lo + hi) / 2 * g.w, cy = r.uni(.4, .6) * g.h, rx = (hi - lo) / 2 * r.uni(.5, .95) * g.w, ry = r.uni(.1, .35) * g.h;
        int nv = (int)r.i(3, 6); double a0 = r.uni(0, 6); p.inners.push_back({}); auto& h = p.inners.back(); for (int j = 0; j < nv; j++) { double a = a0 + 2 * M_PI * (j + r.uni(-.2, .2)) / nv; add(h, cx + rx * std::cos(a), cy + ry * std::sin(a)); }
        if (r.p(.5)) std::reverse(h.begin(), h.end()); h.push_back(h[0]); }
      L.polys.push_back(p);
      if (shape == 5) { WPoly p2; double cx = r.uni(.65, .8) * g.w; add(p2.outer, cx, 0); add(p2.outer, g.w, 0); add(p2.outer, g.w, g.h); if (r.p(.5)) add(p2.outer, cx, g.h); p2.outer.push_back(p2.outer[0]); L.polys.push_back(p2); }
      radioType.push_back({});
      int m = (int)r.i(k.minTx, k.maxTx);
      for (int j = 0; j < m; j++) {
        WTx x; std::string id;
        if (i > 0 && r.p(k.sharedTx)) { auto& o = t.world[r.i(0, i - 1)]; if (o.tx.empty()) continue; x = o.tx[r.i(0, (ll)o.tx.size() - 1)]; bool dup = false; for (auto& q : L.tx) if (q.id == x.id) dup = true; if (dup) continue; int rt = 0; for (auto& q : radioType) if (q.count(x.id)) rt = q[x.id]; radioType[i][x.id] = rt; }
        else {
          x.id = txId(ids[txn++]); int rt = k.rtt ? (r.p(.85) ? RT_RTT : RT_WIFI) : k.radioKinds == 1 ? (int)r.pick(std::vector<int>{RT_BEACON, RT_BLUETOOTH, RT_EDDYSTONE}) : k.radioKinds == 2 ? RT_WIFI : (int)r.i(0, 4);
          radioType[i][x.id] = rt; x.type = r.p(k.locators) ? TX_LOCATOR : rt == RT_WIFI || rt == RT_RTT ? TX_WIFI : rt == RT_BEACON ? TX_BEACON : rt == RT_BLUETOOTH ? TX_BLUETOOTH : TX_EDDYSTONE;
          x.A = r.uni(-80, -55); x.B = r.uni(4, 9); x.power = r.p(.5) ? 0 : r.p(.5) ? r.uni(-65, -55) : r.uni(1, 8);
        }
        auto q = w.geo(g.ox + r.uni(.03, .97) * g.w, g.oy + r.uni(.03, .97) * g.h); x.lat = q.first; x.lon = q.second; x.alt = r.uni(1, 3);
        L.tx.push_back(x);
      }
      int rp = (int)r.i(k.minRp, k.maxRp);
      for (int j = 0; j < rp; j++) {
        WRp p; p.id = "r" + std::to_string(ids[j]) + (r.p(.2) ? "x" : ""); double X = r.uni(.05, .95) * g.w, Y = r.uni(.05, .95) * g.h; auto q = w.geo(g.ox + X, g.oy + Y); p.lat = q.first; p.lon = q.second;
        bool pos = r.p(.3);
        for (auto& x : L.tx) if (r.p(.85)) { double m = rssiAt(i, x, g.ox + X, g.oy + Y, i) + r.gauss() * 2; m = std::min(m, -1.0); p.mean[x.id] = pos ? -m : m; }
        L.rp.push_back(p);
      }
      if (k.graph) {
        int v = (int)r.i(2, 7); for (int j = 0; j < v; j++) L.verts.push_back(w.geo(g.ox + r.uni(.05, .95) * g.w, g.oy + r.uni(.05, .95) * g.h));
        for (int j = 1; j < v; j++) { L.edges.push_back({(int)r.i(0, j - 1), j}); if (r.p(.3)) { int a = (int)r.i(0, v - 1); if (a != j) L.edges.push_back({j, a}); } }
      }
      t.world.push_back(L);
    }
  }
  std::pair<double, double> txXY(const WTx& x) const { return {(x.lon - w.blon) * (model::EQ * std::cos(w.blat * M_PI / 180)) / 360, (x.lat - w.blat) * model::POLE / 360}; }
  double powerOf(const std::string& id) const { for (auto& L : t.world) for (auto& x : L.tx) if (x.id == id) return x.power; return 0; }
  double rssiAt(int txLevel, const WTx& x, double X, double Y, int lvl) const {
    auto p = txXY(x); double d = std::max(std::hypot(p.first - X, p.second - Y), 0.5);
    return x.A - x.B * std::log(d) - std::abs(txLevel - lvl) * 12.0;
  }

  // ---- the walker ----------------------------------------------------------------------------------------------
  Walker walker() {
    Walker wk; double t = 0; int l = (int)r.i(0, (ll)w.lv.size() - 1);
    auto rx = [&](int l) { return w.lv[l].ox + r.uni(.05, .95) * w.lv[l].w; };
    auto ry = [&](int l) { return w.lv[l].oy + r.uni(.05, .95) * w.lv[l].h; };
    double x = rx(l), y = ry(l);
    while (t < k.simS) {
      if (r.p(k.standP)) { double d = r.uni(2, 14); wk.segs.push_back({t, t + d, l, x, y, x, y, false}); t += d; }
      else { double nx = rx(l), ny = ry(l), d = std::max(1.0, std::min(std::hypot(nx - x, ny - y) / k.speed, 15.0)); double f = std::min(1.0, k.speed * d / std::max(1e-3, std::hypot(nx - x, ny - y))); nx = x + f * (nx - x); ny = y + f * (ny - y); wk.segs.push_back({t, t + d, l, x, y, nx, ny, true}); t += d; x = nx; y = ny; }
      if (w.lv.size() > 1 && r.p(std::min(1.0, (wk.segs.back().t1 - wk.segs.back().t0) / k.levelChangeEvery))) {
        int n = (int)r.i(0, (ll)w.lv.size() - 2); if (n >= l) n++;
        l = n; x = std::min(std::max(x, w.lv[l].ox + .5), w.lv[l].ox + w.lv[l].w - .5); y = std::min(std::max(y, w.lv[l].oy + .5), w.lv[l].oy + w.lv[l].h - .5);
      }
    }
    return wk;
  }

  // ---- sources, faults, delivery -------------------------------------------------------------------------------
  struct Ev { double t; Msg m; ll arr = 0; std::string tag; int src = 0; };   // src: 0 radio 1 sensors 2 gps/nmea
  void fault(const char* f, ll n = 1) { t.faults[f] += n; }
  double dur() { double a = r.u(); return a < .5 ? r.uni(.5, 4) : a < .85 ? r.uni(3, k.outageMaxS) : r.uni(k.outageMaxS, k.outageMaxS * 2); }
  struct Win { double a, b; int kind; int arg; };
  bool in(const std::vector<Win>& v, double t, int kind, int* arg = nullptr) const { for (auto& x : v) if (x.kind == kind && t >= x.a && t < x.b) { if (arg) *arg = x.arg; return true; } return false; }
  std::vector<Win> wins; ll T0 = 1000; double skew[3] = {0, 0, 0}; ll off[3] = {0, 0, 0}; std::vector<std::pair<double, ll>> jumps;
  ll stamp(double t, int src) const { double v = T0 + t * 1000 * (1 + skew[src]) + off[src]; for (auto& j : jumps) if (t >= j.first) v += j.second; return (ll)std::floor(v); }

  std::vector<Ev> events(const Walker& wk) {
    std::vector<Ev> ev; std::string foreignId = "zz";
    wins.clear(); jumps.clear(); for (int i = 0; i < 3; i++) { skew[i] = 0; off[i] = 0; }
    T0 = r.p(.3) ? r.i(1, 4000) : r.p(.5) ? r.i(40000, 2000000) : r.p(.8) ? 1500000000000ll + r.i(0, 1000000000) : (r.p(.5) ? 1ll << 31 : 1ll << 32) - r.i(0, (ll)(k.simS * 1000));
    enum { OUT_RADIO, STALL_SENS, STALL_GPS, INTERF, BURST, DEAD, STUCK };
    auto addWin = [&](double p, int kind, const char* nm, int maxN, int arg) { if (r.p(p)) { int n = (int)r.i(1, maxN); for (int i = 0; i < n; i++) { double a = r.uni(0, k.simS * .9); wins.push_back({a, a + dur(), kind, arg}); } (void)nm; } };
    if (k.radioLate > 0) wins.push_back({0, k.radioLate, OUT_RADIO, 0}); addWin(k.pOutage, OUT_RADIO, "radio outage", 3, 0); addWin(k.pOutage, STALL_SENS, "sensor stall", 2, 0); addWin(k.gpsHz > 0 ? k.pOutage : 0, STALL_GPS, "gps outage", 2, 0);
    addWin(w.lv.size() > 1 ? k.pInterf : 0, INTERF, "interference", 3, (int)r.i(0, (ll)w.lv.size() - 1)); addWin(k.pBurst, BURST, "burst delivery", 3, 0);
    addWin(k.pDead, DEAD, "dead sensor", 2, (int)r.i(0, 5)); addWin(k.pDead, STUCK, "stuck sensor", 2, (int)r.i(0, 5));
    if (r.p(k.pSkew)) { for (int i = 0; i < 3; i++) { skew[i] = r.uni(-.02, .02); off[i] = r.i(0, 400); } fault("clock skew"); }
    if (r.p(k.pJump)) { int n = (int)r.i(1, 2); while (n--) { jumps.push_back({r.uni(1, k.simS), r.i(200, 45000)}); fault("clock jump forward"); } }
    if (r.p(k.pBackJump)) { int n = (int)r.i(1, 3); while (n--) { jumps.push_back({r.uni(1, k.simS), -r.i(1, 200000)}); fault("clock jump backward"); } }
    int l; double x, y; bool mv;
    // radio
    double nonf = r.p(k.pNonfinite) ? r.uni(.01, .1) : 0, corr = r.p(k.pCorrupt) ? r.uni(.2, 1) * k.corruptRate * 2 : 0, inel = r.p(k.pIneligible) ? r.uni(.05, .3) : 0;
    for (size_t li = 0; li < t.world.size(); li++) for (auto& tx : t.world[li].tx) {
      if (k.radioHz <= 0) break;
      bool first = true; for (size_t q = 0; q < li; q++) for (auto& o : t.world[q].tx) if (o.id == tx.id) first = false;
      if (!first) continue;
      double per = 1 / k.radioHz;
      for (double s = r.uni(0, per); s < k.simS; s += per * r.uni(.7, 1.3)) {
        wk.pos(s, l, x, y, mv); int arg = 0; double rs = rssiAt((int)li, tx, x, y, l) + r.gauss() * k.radioNoise;
        if (in(wins, s, INTERF, &arg)) { rs += (arg == (int)li ? 25 : -10); fault("interference"); }
        if (rs > -1) rs = -1 - r.u();
        if (rs < -104) continue;
        if (in(wins, s, OUT_RADIO)) { fault("radio outage"); continue; }
        Ev e; e.t = s; e.src = 0; e.m.kind = MK_RADIO; e.m.type = radioType[li].at(tx.id); e.m.id = tx.id; e.m.v[0] = k.intRssi ? std::round(rs) : rs; e.m.v[1] = tx.power;
        if (e.m.type == RT_RTT) { auto p = txXY(tx); e.m.v[2] = std::max(.1, std::hypot(p.first - x, p.second - y) + r.gauss()); e.m.v[3] = r.uni(.1, 2); }
        ev.push_back(e);
      }
    }
    if (inel > 0 || k.foreign > 0) {   // signals that must not matter
      double hz = k.foreign + inel * 8; std::vector<std::pair<std::string, int>> all; for (auto& m : radioType) for (auto& q : m) all.push_back({q.first, q.second});
      for (double s = r.uni(0, 1 / hz); s < k.simS; s += r.uni(.3, 1.7) / hz) {
        Ev e; e.t = s; e.src = 0; e.m.kind = MK_RADIO; e.tag = "ineligible"; int how = (int)r.i(0, 3); fault("ineligible signal");
        if (how == 0 || all.empty()) { e.m.id = "unknown" + std::to_string(r.i(0, 5)); e.m.type = (int)r.i(0, 4); e.m.v[0] = r.uni(-95, -30); e.m.v[2] = r.uni(0, 20); }
        else { auto& q = r.pick(all); e.m.id = q.first; e.m.type = q.second; e.m.v[0] = r.uni(-95, -30); e.m.v[1] = powerOf(q.first); e.m.v[2] = r.uni(0, 20);
          if (how == 1) e.m.v[0] = r.pick(std::vector<double>{0, 1, 20, -100, -100.5, -127, 127, -1000});
          if (how == 2) e.m.v[r.i(0, 2)] = r.pick(std::vector<double>{NAN, INFINITY, -INFINITY});
          if (how == 3) e.m.type = q.second == RT_WIFI || q.second == RT_RTT ? (int)r.i(1, 3) : r.p(.5) ? RT_WIFI : RT_RTT; }
        ev.push_back(e);
      }
    }
    // sensors
    double ph = r.uni(0, 6), stepF = r.uni(1.6, 2.2), amp = r.uni(1.5, 5), tx = r.uni(-.3, .3), ty = r.uni(-.3, .3);
    auto sensor = [&](double hz, int type, std::function<void(double, Msg&)> f, int src, int win, const char* wn) {
      if (hz <= 0) return;
      Msg last; bool had = false;
      for (double s = r.uni(0, 1 / hz); s < k.simS; s += r.uni(1 - k.jitter, 1 + k.jitter) / hz) {
        if (in(wins, s, win)) { fault(wn); continue; }
        wk.pos(s, l, x, y, mv); Ev e; e.t = s; e.src = src; e.m.kind = MK_SENSOR; e.m.type = type; f(s, e.m);
        if (e.m.kind == MK_SENSOR) { for (auto& wn : wins) if (wn.arg == type && s >= wn.a && s < wn.b && (wn.kind == DEAD || (wn.kind == STUCK && had))) { if (wn.kind == DEAD) { e.m.v[0] = e.m.v[1] = e.m.v[2] = 0; fault("dead sensor"); } else { std::copy(last.v, last.v + 3, e.m.v); fault("stuck sensor"); } } last = e.m; had = true; if (k.pSpike > 0 && r.p(k.pSpike)) { e.m.v[r.i(0, 2)] *= std::pow(10, r.p(.5) || k.spikeExp <= 4 ? r.uni(1, std::min(4.0, k.spikeExp)) : r.uni(4, k.spikeExp)); fault("spike"); } }
        ev.push_back(e);
      }
    };
    sensor(k.accHz, ST_ACC, [&](double s, Msg& m) { double g = 9.81 + (mv ? amp * std::sin(2 * M_PI * stepF * s + ph) : 0) + r.gauss() * .08; m.v[0] = g * std::sin(tx); m.v[1] = g * std::sin(ty) * std::cos(tx); m.v[2] = g * std::cos(tx) * std::cos(ty); }, 1, STALL_SENS, "sensor stall");
    sensor(k.gyroHz, ST_GYRO, [&](double, Msg& m) { for (int i = 0; i < 3; i++) m.v[i] = r.gauss() * (mv ? .5 : .02); }, 1, STALL_SENS, "sensor stall");
    sensor(k.magHz, ST_MAG, [&](double s, Msg& m) { double a = s * .1 + ph; m.v[0] = 20 * std::sin(a) + r.gauss(); m.v[1] = 20 * std::cos(a) + r.gauss(); m.v[2] = -40 + r.gauss(); }, 1, STALL_SENS, "sensor stall");
    sensor(k.oriHz, ST_ORI, [&](double s, Msg& m) { m.v[0] = r.p(.1) ? r.uni(-30, 30) : std::remainder(s * .2 + ph, 2 * M_PI); m.v[1] = r.uni(-1, 1); m.v[2] = r.uni(-1, 1); }, 1, STALL_SENS, "sensor stall");
    sensor(k.baroHz, ST_BARO, [&](double, Msg& m) { double bias = k.baroLie ? 0 : 1; m.v[0] = 1013.25 * std::exp(-bias * w.lv[l].alt * k.baroScale / 8450.0) + r.gauss() * k.baroNoise; }, 1, STALL_SENS, "sensor stall");
    double worst = r.p(.5) ? .15 : 0;
    sensor(k.gpsHz, ST_LOC, [&](double, Msg& m) { double acc = r.uni(2, 20); if (r.p(worst)) { acc = r.uni(20, 120); } double n = k.gpsNoise, X = x + r.gauss() * n, Y = y + r.gauss() * n; if (r.p(worst)) { X += r.gauss() * 60; Y += r.gauss() * 60; fault("gps outlier"); } auto g = w.geo(X, Y); m.v[0] = g.first; m.v[1] = g.second; m.v[2] = acc; if (k.pAbsurd > 0 && r.p(k.pAbsurd)) { m.v[2] = std::pow(10, r.p(.5) ? r.uni(3, 8) : r.uni(8, 300)); fault("absurd accuracy"); } }, 2, STALL_GPS, "gps outage");
    sensor(k.nmeaHz, 0, [&](double, Msg& m) { m.kind = MK_NMEA; m.n1 = r.p(.8) ? 1 : (int)r.i(0, 4); m.n2 = r.p(.2) ? 0 : (int)r.i(1, 30); }, 2, STALL_GPS, "gps outage");
    // value faults
    for (auto& e : ev) {
      if (nonf > 0 && r.p(nonf) && e.m.kind != MK_NMEA) { e.m.v[r.i(0, 2)] = r.pick(std::vector<double>{NAN, INFINITY, -INFINITY}); e.tag = "nonfinite"; fault("non-finite value"); }
      if (corr > 0 && r.p(corr)) corrupt(e);
    }
    // delivery faults
    double drop = r.p(k.pDrop) ? r.uni(.01, .4) : 0, dup = r.p(k.pDup) ? r.uni(.01, .2) : 0, del = r.p(k.pDelay) ? r.uni(.02, .4) : 0;
    std::vector<Ev> out;
    for (auto& e : ev) {
      e.m.ts = stamp(e.t, e.src); if (e.m.ts < 1 && k.pBackJump == 0) e.m.ts = 1;
      e.arr = T0 + (ll)(e.t * 1000);
      if (drop > 0 && r.p(drop)) { fault("message lost"); continue; }
      if (del > 0 && r.p(del)) { e.arr += r.p(.8) ? r.i(1, 700) : r.i(500, 6000); fault("message delayed"); }
      for (auto& wn : wins) if (wn.kind == BURST && e.t >= wn.a && e.t < wn.b) { e.arr = T0 + (ll)(wn.b * 1000); fault("held and delivered in a burst"); }
      out.push_back(e);
      if (dup > 0 && r.p(dup)) { Ev d = e; d.arr += r.p(.5) ? 0 : r.i(1, 1500); out.push_back(d); fault("message duplicated"); }
    }
    std::stable_sort(out.begin(), out.end(), [](const Ev& a, const Ev& b) { return a.arr < b.arr; });
    if ((ll)out.size() > k.maxMsgs) out.resize(k.maxMsgs);
    return out;
  }
  void corrupt(Ev& e) {
    fault("corrupt value"); e.tag = "corrupt";
    if (e.m.kind == MK_NMEA) { e.m.n1 = (int)r.i(-5, 5); e.m.n2 = r.p(.5) ? (int)r.i(-100, 100) : (r.p(.5) ? 2147483647 : (int)-2147483648ll); return; }
    if (e.m.kind == MK_RADIO && r.p(.15)) { e.m.id = r.p(.3) ? "" : r.p(.5) ? std::string(300, 'q') : "t0"; return; }
    if (e.m.kind == MK_RADIO && r.p(.1)) { e.m.type = (int)r.i(0, 4); return; }
    double& v = e.m.v[r.i(0, 2)];
    switch (r.i(0, 6)) {
      case 0: v = -v; break; case 1: v *= 1000; break; case 2: v = r.pick(std::vector<double>{1e300, -1e300, 1e18, -1e18, 1e100, 1.7e308, -1.7e308}); break;
      case 3: v = r.pick(std::vector<double>{0, 5e-324, -5e-324, 1e-300}); break; case 4: v = r.pick(std::vector<double>{NAN, INFINITY, -INFINITY}); break;
      case 5: { uint64_t b; memcpy(&b, &v, 8); b ^= 1ull << r.i(0, 63); memcpy(&v, &b, 8); break; } default: v = r.uni(-500, 500);
    }
  }
  // cut into calls: a poll period, per message, or a few large batches
  void deliver(std::vector<Ev> ev, int c) {
    bool sorted = r.p(k.pSorted); int mode = k.batch >= 0 ? k.batch : (int)r.i(0, 2); ll period = mode == 0 ? r.i(50, 500) : r.i(500, 4000); ll next = ev.empty() ? 0 : ev[0].arr + period;
    std::vector<Ev> b; double pr = r.p(k.pRestart) ? r.uni(.2, 1) * 8 / std::max<double>(1, ev.size()) : 0; ll lastTs = -1;
    auto flush = [&]() {
      if (sorted) std::stable_sort(b.begin(), b.end(), [](const Ev& a, const Ev& c) { return a.m.ts < c.m.ts; });
      ll prev = 0; bool f = true;
      for (auto& e : b) {
        if (k.monotone && e.m.ts < lastTs) { fault("late message discarded by the app"); continue; }
        if (!f && e.m.ts < prev) fault("stale message in a call"); else prev = e.m.ts;
        f = false; lastTs = std::max(lastTs, e.m.ts);
        Op o; o.op = 'M'; o.c = c; o.m = e.m; o.tag = e.tag; t.ops.push_back(o);
      }
      b.clear(); Op o; o.op = 'N'; o.c = c; t.ops.push_back(o);
      if (pr > 0 && r.p(pr)) { Op q; q.op = 'R'; q.c = c; t.ops.push_back(q); fault("client crash and restart"); lastTs = -1; }
    };
    for (auto& e : ev) {
      if (mode == 2) { b.push_back(e); flush(); continue; }
      while (e.arr >= next) { if (!b.empty() || r.p(.05)) flush(); else if (e.arr - next > 20 * period) next = e.arr - e.arr % period; next += period; }
      b.push_back(e);
    }
    flush();
    t.simMs += (ll)(k.simS * 1000);
    for (auto& j : jumps) if (j.second > 0) t.simMs += j.second;
  }

  // ---- settings ------------------------------------------------------------------------------------------------
  std::map<std::string, double> settings() {
    std::map<std::string, double> s; auto flag = [&](const char* n, double p) { s[n] = r.p(p) ? 1 : 0; };
    s["useAlgorithm"] = k.knn == 1 || (k.knn == 2 && r.p(.5)) ? 4 : (double)r.i(0, 3);
    s["signalsToUse"] = k.rtt ? r.i(1, 2) : k.radioKinds == 1 ? (r.p(.7) ? 0 : 2) : k.radioKinds == 2 ? r.i(1, 2) : r.i(0, 2);
    s["measurementType"] = k.rtt ? (r.p(.8) ? r.i(1, 2) : 0) : (r.p(.03) ? 1 : 0);
    flag("useTxPower", .3); if (k.knn && r.p(.3)) flag("useRadiomap", .6); flag("useBestRefPointLevel", .3);
    flag("useTracking", k.locators > 0 ? .5 : .02); flag("useUnknownTransmitters", .12);
    s["sigCutOffRss"] = r.p(.5) ? -100 : r.uni(-98, -75);
    flag("useClosestAps", .25); s["numClosestAps"] = (double)r.i(1, 6);
    s["sigAveragingTime"] = r.pick(std::vector<double>{.5, 1, 1, 2, 3, 5}) ; s["sigWindowShift"] = r.p(.35) ? 0 : r.p(.9) ? std::round(r.uni(.1, 1) * s["sigAveragingTime"] * 100) / 100 : 7.5;
    s["kNeighbors"] = (double)r.i(1, 10); flag("useTriangles", .5); flag("useDiffMode", .5); s["minNumOfMeasurementsForPositionCalculation"] = (double)r.i(1, 5);
    s["smoothing"] = r.uni(.2, 1); s["deadReckoningTime"] = r.pick(std::vector<double>{1, 2, 3, 5, 5, 8, 12}); s["averageMovSpeed"] = r.uni(.3, 2);
    flag("useStops", .4); s["stopDetectionTime"] = r.pick(std::vector<double>{1, 2, 3, 3, 5}); s["stopUpdateTime"] = r.pick(std::vector<double>{1, 2, 4, 8}); s["useStopsDistanceThresholdM"] = r.pick(std::vector<double>{2, 5, 10, 30});
    flag("useSmoothing", .6); flag("useAbFilter", .6); flag("useAccuracyForSmoothing", .3); flag("useSpeedConstraint", .6); flag("useBarriers", .3); flag("useTimeSmoothing", .25);
    flag("useGraphProjection", k.graph ? .6 : .05); s["graphProjDist"] = r.uni(1, 15);
    flag("useGps", k.gpsHz > 0 ? .85 : .2); flag("useInstantGpsPosition", .15); flag("preferIndoorSolution", .25); flag("fuseGps", .5); flag("useGpsOutsideMap", .25);
    flag("useGpsSigmaFilter", .3); s["sigmaFilterWindow"] = (double)r.i(0, 5); s["sigmaFilterDelta"] = r.uni(0, 6); s["minNumSats"] = (double)r.i(0, 20);
    s["priorDeviation"] = r.uni(5, 60); s["minGpsDeviation"] = r.uni(1, 15); if (r.p(.5)) s["maxGpsDeviation"] = r.uni(8, 60); s["fuseGpsBorderM"] = (double)r.i(0, 20);
    s["noSignalTimeThreshold"] = (double)r.i(2, 35); s["noActionTimeThreshold"] = (double)r.i(2, 20); s["positionIsTooOldSec"] = r.uni(1, 20); s["gpsValidTimeWindowSec"] = r.uni(.3, 4);
    flag("useCalculatedAzimuth", .4); flag("useEnuAzimuth", .4); s["deviceAzimuthLifetimeSeconds"] = r.uni(.5, 12); s["stepMultiplier"] = r.p(.5) ? 1 : r.uni(.5, 1.5);
    flag("useBarometer", k.baroHz > 0 ? .8 : .1); s["wiFiRttOffset"] = r.uni(-3, 3); flag("useAltitude", .15);
    return s;
  }
};
} // namespace gen
