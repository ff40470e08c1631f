// Executable reference model of the navigation core, written from the documented behaviour, on plain data types.
// It shares no code with /repo. Decisions that hang on rounding errors raise `amb`; the comparison stops there.
#pragma once
#include <algorithm>
#include <deque>
#include <functional>
#include <limits>
#include <memory>
#include "../trace.hpp"

namespace model {

// name, default: mirrors the public settings object
#define SIM_SETTINGS(X) \
  X(useAlgorithm, 2) X(useEnuAzimuth, 0) X(useTxPower, 0) X(useRadiomap, 0) X(useStops, 0) X(useTracking, 0) X(stopDetectionTime, 3.0) \
  X(averageMovSpeed, 1.0) X(measurementType, 0) X(useBestRefPointLevel, 0) X(useBarometer, 0) X(useUnknownTransmitters, 0) \
  X(sigCutOffRss, -100) X(useClosestAps, 0) X(numClosestAps, 1) X(sigAveragingTime, 1.0) X(sigWindowShift, 0.0) X(signalsToUse, 0) \
  X(kNeighbors, 8) X(useTriangles, 1) X(useDiffMode, 1) X(minNumOfMeasurementsForPositionCalculation, 4) X(smoothing, 0.5) \
  X(deadReckoningTime, 5.0) X(stopUpdateTime, 4.0) X(graphProjDist, 5.0) X(useStopsDistanceThresholdM, 10.0) X(useSmoothing, 1) \
  X(useGraphProjection, 0) X(useAccuracyForSmoothing, 0) X(useSpeedConstraint, 1) X(useBarriers, 0) X(useTimeSmoothing, 0) \
  X(useAbFilter, 1) X(useAltitude, 0) X(useGps, 0) X(useInstantGpsPosition, 0) X(preferIndoorSolution, 0) X(fuseGps, 0) \
  X(useGpsOutsideMap, 0) X(useGpsSigmaFilter, 0) X(sigmaFilterWindow, 1) X(sigmaFilterDelta, 0.0) X(minNumSats, 20) \
  X(priorDeviation, 50.0) X(minGpsDeviation, 5.0) X(maxGpsDeviation, std::numeric_limits<double>::infinity()) X(fuseGpsBorderM, 10) \
  X(noSignalTimeThreshold, 35) X(noActionTimeThreshold, 20) X(positionIsTooOldSec, 20.0) X(gpsValidTimeWindowSec, 1.0) \
  X(useCalculatedAzimuth, 0) X(deviceAzimuthLifetimeSeconds, 10.0) X(stepMultiplier, 1.0) X(wiFiRttOffset, -1.5)

struct Cfg {
#define X(n, d) double n = d;
  SIM_SETTINGS(X)
#undef X
  void set(const std::string& k, double v) {
#define X(n, d) if (k == #n) { n = v; return; }
    SIM_SETTINGS(X)
#undef X
  }
  Cfg() {}
  explicit Cfg(const std::map<std::string, double>& m) { for (auto& p : m) set(p.first, p.second); }
};

const double EQ = 40075160.0, POLE = 40008000.0;
struct P2 { double x = 0, y = 0; };
inline double normLon(double l) { if (l > 180) return l - 360; if (l <= -180) return l + 360; return l; }
inline P2 toLocal(double lat, double lon, double blat, double blon) {
  return {normLon(lon - blon) * (EQ * std::cos(blat * M_PI / 180) / 360), (lat - blat) * (POLE / 360)};
}
inline P2 toGeo(P2 p, double blat, double blon) { // x = lat, y = lon
  return {p.y * (360 / POLE) + blat, normLon(p.x * 360 / (EQ * std::cos(blat * M_PI / 180)) + blon)};
}
inline double dist(P2 a, P2 b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)); }

struct Tx { std::string id; P2 p; double A, B, power; int type; double z; };
struct Rp { std::string id; P2 p; std::map<std::string, double> mean; };
struct Tri { int a, b, c; };
struct Level {
  std::string id; double blat, blon; P2 lo, hi; double A, B;
  std::map<std::string, Tx> tx; std::vector<Rp> rp; std::vector<Tri> tris; bool hasTris = false; bool triAmb = false;
  std::set<std::string> rpTx;
  std::vector<P2> verts; std::vector<std::pair<int, int>> edges;
  std::vector<std::vector<P2>> outers; std::vector<std::vector<std::vector<P2>>> inners;
};

enum Prov { GNSS, INDOOR, FUSED, NONE };
enum Status { OK = 0, NAV_ERR = -1, NO_SOL = 4, NO_RPS = 7, NO_LEVEL = 30 };
struct Pos { P2 p; int lvl = -1; double dev = 0; ll ts = 0; bool empty = true; int prov = NONE; };
struct Radio { int type; std::string id; double rssi, power, distance; bool mixed = false; };

struct Out {
  int status = 0; int lvl = -1; double lat = 0, lon = 0; P2 xy; double r = 0, ori = 0; int prov = NONE;
  int steps = 0; double stepLen = 0; P2 in, out; bool amb = false; bool levelKnown = false; double oriTol = 1e-5, alt = 0, altTol = 0; bool altAmb = false;
};

struct Ctx {   // shared by the parts of one client model
  bool amb = false; std::map<std::string, ll>* probes = nullptr;
  bool lt(double a, double b) { if (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)})) amb = true; return a < b; }
  void probe(const char* n) { if (probes) (*probes)[n]++; }
};

// ---- map -------------------------------------------------------------------------------------------------------
inline bool inRing(const std::vector<P2>& r, P2 p, double& margin) {
  bool in = false; size_t n = r.size();
  for (size_t i = 0, j = n - 1; i < n; j = i++) {
    const P2 &a = r[i], &b = r[j];
    if ((a.y > p.y) != (b.y > p.y) && p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x) in = !in;
    double L = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y), t = L > 0 ? ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / L : 0;
    t = std::min(1.0, std::max(0.0, t)); margin = std::min(margin, dist(p, {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}));
  }
  return in;
}

inline void delaunay(Level& L) {
  L.hasTris = false; if (L.rp.size() <= 3) return;
  std::vector<P2> v; double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
  for (auto& r : L.rp) { x0 = std::min(x0, r.p.x); x1 = std::max(x1, r.p.x); y0 = std::min(y0, r.p.y); y1 = std::max(y1, r.p.y); v.push_back(r.p); }
  x0 -= 10; y0 -= 10; x1 += 10; y1 += 10;
  int n = (int)v.size();
  v.push_back({x0 + y0 - y1, y0}); v.push_back({x1 + y1 - y0, y0}); v.push_back({(x0 + x1) / 2, y1 + (x1 - x0) / 2});
  double maxEdge = std::max(L.hi.x - L.lo.x, L.hi.y - L.lo.y);
  auto nearEdge = [&](double d) { return std::fabs(d - maxEdge) < 1e-7 * maxEdge; };
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = b + 1; c < n; c++) {
    const P2 &A = v[a], &B = v[b], &C = v[c];
    double d = 2 * (A.x * (B.y - C.y) + B.x * (C.y - A.y) + C.x * (A.y - B.y));
    if (std::fabs(d) < 1e-6) { L.triAmb = true; continue; }
    double ux = ((A.x * A.x + A.y * A.y) * (B.y - C.y) + (B.x * B.x + B.y * B.y) * (C.y - A.y) + (C.x * C.x + C.y * C.y) * (A.y - B.y)) / d;
    double uy = ((A.x * A.x + A.y * A.y) * (C.x - B.x) + (B.x * B.x + B.y * B.y) * (A.x - C.x) + (C.x * C.x + C.y * C.y) * (B.x - A.x)) / d;
    P2 U{ux, uy}; double r = dist(U, A); bool empty = true;
    for (int i = 0; i < (int)v.size() && empty; i++) if (i != a && i != b && i != c) {
      double m = dist(U, v[i]) - r;
      if (std::fabs(m) < 1e-6 * std::max(1.0, r)) L.triAmb = true;
      if (m < 0) empty = false;
    }
    if (!empty) continue;
    double e[3] = {dist(A, B), dist(B, C), dist(A, C)}; bool ok = true;
    for (double x : e) { if (nearEdge(x)) L.triAmb = true; if (x > maxEdge) ok = false; }
    if (ok) L.tris.push_back({a, b, c});
  }
  L.hasTris = !L.tris.empty();
}

// 1: the walk leaves every hall or meets a hole, 0: it does neither, -1: too close to call
inline int walkTouches(const std::vector<std::vector<P2>>& outers, const std::vector<std::vector<std::vector<P2>>>& inners, const std::vector<P2>& path) {
  const double eps = 1e-6; bool unsure = false;
  auto side = [](P2 a, P2 b, P2 c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); };
  auto meets = [&](const std::vector<P2>& r) { bool m = false; for (size_t s = 0; s + 1 < path.size(); s++) for (size_t i = 0; i < r.size(); i++) { P2 a = r[i], b = r[(i + 1) % r.size()], c = path[s], d = path[s + 1]; if (dist(a, b) < 1e-9 || dist(c, d) < 1e-9) continue;
      double q[4] = {side(a, b, c) / dist(a, b), side(a, b, d) / dist(a, b), side(c, d, a) / dist(c, d), side(c, d, b) / dist(c, d)}; bool near = false; for (double v : q) if (std::fabs(v) < eps) near = true;
      if ((q[0] > eps && q[1] > eps) || (q[0] < -eps && q[1] < -eps) || (q[2] > eps && q[3] > eps) || (q[2] < -eps && q[3] < -eps)) continue; if (near) { unsure = true; continue; } if ((q[0] > 0) != (q[1] > 0) && (q[2] > 0) != (q[3] > 0)) m = true; } return m; };
  double mg = 1e300; bool free = false; for (auto& o : outers) { bool in = true; for (auto& p : path) if (!inRing(o, p, mg)) in = false; if (!meets(o) && in) free = true; }
  bool hit = false; for (auto& h : inners) for (auto& r : h) { if (meets(r)) hit = true; for (auto& p : path) if (inRing(r, p, mg)) hit = true; }
  if (unsure || mg < eps) return -1; return !free || hit;
}
struct Map {
  std::vector<Level> levels;
  explicit Map(const std::vector<WLevel>& w) {
    for (auto& x : w) {
      Level L; L.id = x.id; L.A = x.A; L.B = x.B;
      double la0 = 1e300, la1 = -1e300, lo0 = 1e300, lo1 = -1e300;
      for (auto& p : x.polys) for (auto& q : p.outer) { la0 = std::min(la0, q.first); la1 = std::max(la1, q.first); lo0 = std::min(lo0, q.second); lo1 = std::max(lo1, q.second); }
      L.blat = la0; L.blon = lo0;
      P2 a = toLocal(la0, lo0, la0, lo0), b = toLocal(la1, lo1, la0, lo0);
      L.lo = {std::min(a.x, b.x), std::min(a.y, b.y)}; L.hi = {std::max(a.x, b.x), std::max(a.y, b.y)};
      for (auto& t : x.tx) if (!L.tx.count(t.id)) L.tx[t.id] = Tx{t.id, toLocal(t.lat, t.lon, L.blat, L.blon), t.A, t.B, t.power, t.type, x.altitude + t.alt};
      for (auto& r : x.rp) { L.rp.push_back(Rp{r.id, toLocal(r.lat, r.lon, L.blat, L.blon), r.mean}); for (auto& m : r.mean) L.rpTx.insert(m.first); }
      for (auto& v : x.verts) L.verts.push_back(toLocal(v.first, v.second, L.blat, L.blon));
      for (auto& e : x.edges) { auto f = e.first < e.second ? e : std::make_pair(e.second, e.first); if (std::find(L.edges.begin(), L.edges.end(), f) == L.edges.end()) L.edges.push_back(f); }
      std::sort(L.edges.begin(), L.edges.end());
      for (auto& p : x.polys) {
        std::vector<P2> o; for (auto& q : p.outer) o.push_back(toLocal(q.first, q.second, L.blat, L.blon)); L.outers.push_back(o);
        std::vector<std::vector<P2>> is; for (auto& h : p.inners) { std::vector<P2> r; for (auto& q : h) r.push_back(toLocal(q.first, q.second, L.blat, L.blon)); is.push_back(r); } L.inners.push_back(is);
      }
      delaunay(L);
      levels.push_back(L);
    }
  }
  int levelOfTx(const std::string& id) const { for (size_t i = 0; i < levels.size(); i++) if (levels[i].tx.count(id)) return (int)i; return -1; }
  bool inBox(Ctx& c, int l, P2 p) const {
    const Level& L = levels[l]; if (std::isnan(p.x) || std::isnan(p.y)) return false;
    double m = std::min(std::min(std::fabs(p.x - L.lo.x), std::fabs(p.x - L.hi.x)), std::min(std::fabs(p.y - L.lo.y), std::fabs(p.y - L.hi.y)));
    bool exactCorner = (p.x == L.lo.x || p.y == L.lo.y);
    if (m < 1e-7 && !exactCorner) c.amb = true;
    return p.x >= L.lo.x && p.x <= L.hi.x && p.y >= L.lo.y && p.y <= L.hi.y;
  }
  bool inArea(Ctx& c, int l, P2 p) const {
    const Level& L = levels[l]; double m = 1e300; bool in = false;
    for (size_t i = 0; i < L.outers.size(); i++) {
      bool a = inRing(L.outers[i], p, m);
      for (auto& h : L.inners[i]) if (inRing(h, p, m)) a = false;
      in = in || a;
    }
    if (m < 1e-7) c.amb = true;
    return in;
  }
};

// ---- sensors ---------------------------------------------------------------------------------------------------
struct Pedometer {
  std::deque<std::pair<ll, double>> acc, mag; ll lastStep = -1; size_t from = 0;
  // feeds one sensor sample (acc >= 0: accelerometer magnitude) and returns the steps found
  std::vector<std::pair<ll, double>> add(Ctx& c, ll ts, bool isAcc, double a) { begin(); if (isAcc) push(ts, a); return steps(c); }
  void begin() { from = std::max<size_t>(mag.size(), 1); }
  void push(ll ts, double a) {
    acc.push_back({ts, a});
    double s1 = 0, s2 = 0; int n1 = 0, n2 = 0;
    size_t i = 0; while (ts - acc[i].first >= 2500) i++;
    for (; i < acc.size(); i++) { s1 += acc[i].second; n1++; }
    i = 0; while (ts - acc[i].first >= 200) i++;
    for (; i < acc.size(); i++) { s2 += acc[i].second; n2++; }
    double f = s2 / n2, av = (s1 + f) / n1;
    if (ts != 0) mag.push_back({ts, f - av});
    while (acc.back().first - acc.front().first > 5000) acc.pop_front();
  }
  std::vector<std::pair<ll, double>> steps(Ctx& c) {
    std::vector<std::pair<ll, double>> out; if (mag.size() <= 3) return out;
    const double T = 0.05 * 9.80665;
    for (size_t i = from; i < mag.size(); i++) {
      if (c.lt(mag[i - 1].second, T) && c.lt(T, mag[i].second) && mag[i].first - lastStep > 300) {
        lastStep = mag[i].first; c.probe("ped.step");
        size_t l = i; while (mag[i].first - mag[l].first <= 700 && l != 0) l--;
        double mx = -1e300, mn = 1e300; for (size_t j = l; j < i; j++) { mx = std::max(mx, mag[j].second); mn = std::min(mn, mag[j].second); }
        out.push_back({mag[i].first, 0.52 * std::pow(mx - mn, 0.25)});
      }
    }
    while (mag.back().first - mag.front().first > 1400) mag.pop_front();
    return out;
  }
};

struct V3 { double x = 0, y = 0, z = 0; };
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline V3 unit(V3 a) { double m = std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); if (!(m > std::numeric_limits<double>::epsilon())) return a; return {a.x / m, a.y / m, a.z / m}; }
struct Q { double w = 1, x = 0, y = 0, z = 0; };
inline Q mul(Q a, Q b) { return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w}; }
inline Q conj(Q a) { return {a.w, -a.x, -a.y, -a.z}; }
inline V3 rot(Q q, V3 v) { Q r = mul(mul(q, {0, v.x, v.y, v.z}), conj(q)); return {r.x, r.y, r.z}; }
inline double wrap(double x) { if (!std::isfinite(x)) return 0; x = std::fmod(x, 2 * M_PI); if (x >= M_PI) x -= 2 * M_PI; if (x < -M_PI) x += 2 * M_PI; return x; }
inline Q advance(Q q, V3 v) {
  Q d = mul(q, {0, v.x, v.y, v.z}); Q o{q.w + d.w / 2, q.x + d.x / 2, q.y + d.y / 2, q.z + d.z / 2};
  double n = std::sqrt(o.w * o.w + o.x * o.x + o.y * o.y + o.z * o.z); if (!(n > 1e-16) || !std::isfinite(n)) return q;
  return {o.w / n, o.x / n, o.y / n, o.z / n};
}
inline void euler(Q q, double& r, double& p, double& y) {
  r = std::atan2(2 * (q.w * q.x + q.y * q.z), 1 - 2 * (q.x * q.x + q.y * q.y));
  double s = 2 * (q.w * q.y - q.z * q.x); p = std::fabs(s) >= 1 ? std::copysign(M_PI / 2, s) : std::asin(s);
  y = std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z));
}
struct Filter {
  double Ka = 0.1, Km = 0.05, Ki = 0; Q q; V3 integ; ll now = -1, lastGyro = -1, lastDev = -1; double magAz = 0, devAz = 0;
  void add(ll ts, int type, V3 v) {
    if (type == ST_ACC) {
      V3 e = cross(unit(v), rot(conj(q), {0, 0, 1}));
      q = advance(q, {Ka * e.x, Ka * e.y, Ka * e.z}); if (Ki > 1e-8) { integ.x += Ki * e.x; integ.y += Ki * e.y; integ.z += Ki * e.z; }
    } else if (type == ST_MAG) {
      if (lastGyro == -1) {
        V3 m = unit(v);
        if (std::sqrt(m.x * m.x + m.y * m.y + m.z * m.z) >= 1e-8) {
          V3 g = rot(q, m); g.y = std::hypot(g.x, g.y); g.x = 0; V3 e = cross(m, rot(conj(q), g));
          q = advance(q, {Km * e.x, Km * e.y, Km * e.z}); if (Ki > 1e-8) { integ.x += Ki * e.x; integ.y += Ki * e.y; integ.z += Ki * e.z; }
        }
      }
      double r, p, y; euler(q, r, p, y);
      Q d{std::sin(y / 2), 0, 0, std::cos(y / 2)}; V3 g = rot(mul(d, q), unit(v));
      magAz = wrap(M_PI / 2 + std::atan2(g.y, g.x));
    } else if (type == ST_GYRO) {
      if (lastGyro == -1) lastGyro = ts;
      double dt = (ts - lastGyro) / 1000.0; lastGyro = ts;
      q = advance(q, {v.x * dt + integ.x * dt, v.y * dt + integ.y * dt, v.z * dt + integ.z * dt});
    } else if (type == ST_ORI) { devAz = v.x; lastDev = ts; }
    now = ts;
  }
  bool devOutdated(double life, ll t) const { return lastDev == -1 || (t - lastDev) / 1000.0 > life; }
};

// ---- smoothing -------------------------------------------------------------------------------------------------
struct AB {
  bool called = false; Pos last; double vx = 0, vy = 0;
  Pos smooth(Ctx& c, const Cfg& s, const Map& m, Pos pos) {
    if (!(pos.ts > last.ts)) return last;
    double sm = std::min(1.0, std::max(0.0, s.smoothing)), a = 0.1 * sm + 0.9 * (1 - sm), t = (pos.ts - last.ts) / 1000.0;
    if (s.useAccuracyForSmoothing) a = std::min(0.9, std::max(0.1, last.dev / (pos.dev + last.dev + 0.5)));
    double b = a * a / (2 - a);
    double px = last.p.x + vx * t, py = last.p.y + vy * t, rx = pos.p.x - px, ry = pos.p.y - py;
    double nvx = vx + b / t * rx, nvy = vy + b / t * ry; P2 n{px + a * rx, py + a * ry};
    bool restart = !called;
    if (!restart && t > 10) { restart = true; c.probe("ab.restart.gap"); }
    if (!restart && s.useSpeedConstraint && c.lt(4, std::hypot(nvx, nvy))) { restart = true; c.probe("ab.restart.speed"); }
    if (!restart && s.useBarriers && !m.inArea(c, pos.lvl, n)) { restart = true; c.probe("ab.restart.area"); }
    if (restart) { last = pos; vx = vy = 0; called = true; return pos; }
    vx = nvx; vy = nvy; pos.p = n; last = pos; c.probe("ab.smooth");
    if (s.useAccuracyForSmoothing) { double pa = last.dev + t * std::hypot(vx, vy); last.dev = (1 - a) * pa + a * pos.dev; return last; }
    return last;
  }
  void reset(const Pos& p) { last = p; vx = vy = 0; }
};

struct Fit1 {   // one axis of the least-squares smoother
  std::deque<std::pair<double, double>> pt; double last = 0; double k = 0, b = 0;
  void add(Ctx& c, double t, double y, double span) {
    if (pt.empty()) { k = b = 0; }
    if (!pt.empty() && pt.back().first == t) return;   // one point per instant
    pt.push_back({t, y});
    while (pt.back().first - pt.front().first > span) pt.pop_front();
    if (pt.size() >= 2) {
      double n = (double)pt.size(), sx = 0, sy = 0, mt = pt[0].first; for (auto& q : pt) { sx += q.first - mt; sy += q.second; }
      double cx = sx / n, cy = sy / n, sxx = 0, sxy = 0; for (auto& q : pt) { sxx += (q.first - mt - cx) * (q.first - mt - cx); sxy += (q.first - mt - cx) * (q.second - cy); }
      k = sxy / sxx; b = cy - k * (cx + mt);
    }
  }
  double predict(double t, double shift, double w) {
    double o; if (pt.size() == 1) o = pt[0].second; else { o = b + k * (t - shift); o = o * w + last * (1 - w); }
    if (std::isfinite(o)) last = o;
    return o;
  }
};
struct Lstsq {
  bool called = false; ll start = 0; Fit1 x, y;
  Pos smooth(Ctx& c, const Cfg& s, const Map& m, Pos pos) {
    if (!called) { start = pos.ts; called = true; return pos; }
    double t = (pos.ts - start) / 1000.0, w = std::min(1.0, std::max(0.0, s.smoothing));
    x.add(c, t, pos.p.x, s.sigAveragingTime); y.add(c, t, pos.p.y, s.sigAveragingTime);
    P2 n{x.predict(t, s.sigWindowShift, w), y.predict(t, s.sigWindowShift, w)};
    if (s.useBarriers && !m.inArea(c, pos.lvl, n)) { x.pt.clear(); y.pt.clear(); start = pos.ts; c.probe("lsq.restart.area"); return pos; }
    if (std::isfinite(n.x) && std::isfinite(n.y)) pos.p = n;
    c.probe("lsq.smooth");
    return pos;
  }
  void reset(const Pos& p) { x.pt.clear(); y.pt.clear(); start = p.ts; }
};
struct TimeSmooth {
  Pos prev, next;
  Pos smooth(Ctx& c, Pos last, ll now) {
    if (now < last.ts) return last;
    if (prev.lvl != last.lvl || next.lvl != last.lvl) { prev = next = last; return last; }
    if (last.ts > next.ts) { prev = next; next = last; }
    if (next.ts == prev.ts) return next;
    double a = (double)(now - next.ts), k = (double)(next.ts - prev.ts);
    if (a > k) return last;
    c.probe("time.interp");
    Pos r = next; r.p = {(next.p.x * a + prev.p.x * (k - a)) / k, (next.p.y * a + prev.p.y * (k - a)) / k}; r.ts = now; return r;
  }
};

// ---- one client ------------------------------------------------------------------------------------------------
struct Client {
  std::shared_ptr<const Map> map; Cfg s; Ctx c;
  explicit Client(std::shared_ptr<const Map> m, const Cfg& cfg, std::map<std::string, ll>* probes) : map(m), s(cfg) { c.probes = probes; sigPre(); ind.dev0 = s.priorDeviation; }

  // radio window
  struct Sig { ll ts; Radio r; };
  std::vector<Sig> buf; ll cur = 0, lastEx = 0, bufStep = 0, lastSignal = 0; ll shiftMs = 0, keepMs = 0;
  void sigPre() { ll avg = (ll)(1000 * s.sigAveragingTime); shiftMs = (ll)(1000 * s.sigWindowShift); if (shiftMs == 0 || shiftMs > avg) shiftMs = avg; keepMs = avg - shiftMs; }
  bool eligible(const Msg& m) {
    if (!(std::fabs(m.v[0]) <= 1000) || !(std::fabs(m.v[1]) <= 1000) || !(std::fabs(m.v[2]) <= 1e6)) { c.probe("sig.nonfinite"); return false; }
    int l = map->levelOfTx(m.id);
    bool known = l >= 0; if (known) { bool loc = map->levels[l].tx.at(m.id).type == TX_LOCATOR; known = (s.useTracking != 0) == loc; if (!known) c.probe("sig.tracking"); }
    if (!s.useUnknownTransmitters && !known) { c.probe("sig.unknown"); return false; }
    if (s.measurementType != 0 && m.type != RT_RTT) { c.probe("sig.notrtt"); return false; }
    if (s.measurementType == 0 && !(m.v[0] < 0 && m.v[0] > s.sigCutOffRss)) { c.probe("sig.rssi"); return false; }
    bool wifi = m.type == RT_WIFI || m.type == RT_RTT;
    if (wifi ? s.signalsToUse == 0 : s.signalsToUse == 1) { c.probe("sig.kind"); return false; }
    return true;
  }
  std::vector<Radio> extract(ll lastMotion) {
    std::vector<Radio> out;
    if (lastMotion > 0) bufStep = lastMotion;
    if (cur - lastEx < shiftMs) return out;
    lastEx = cur;
    std::map<std::string, std::pair<int, Radio>> g;
    for (auto& b : buf) { auto it = g.find(b.r.id); if (it == g.end()) g[b.r.id] = {1, b.r}; else { it->second.first++; it->second.second.rssi += b.r.rssi; it->second.second.distance += b.r.distance; if (it->second.second.type != b.r.type) it->second.second.mixed = true; } }
    for (auto& p : g) { Radio r = p.second.second; r.rssi /= p.second.first; r.distance /= p.second.first; out.push_back(r); if (p.second.first > 1) c.probe("win.averaged"); }
    if (s.useStops && bufStep > 0 && cur - bufStep > (ll)(1000 * s.stopDetectionTime)) c.probe("win.keep");
    else if (keepMs == 0) buf.clear();
    else { std::vector<Sig> k; std::stable_sort(buf.begin(), buf.end(), [](const Sig& a, const Sig& b) { return a.ts < b.ts; }); for (auto& b : buf) if (b.ts >= cur - keepMs) k.push_back(b); buf = k; }
    if (s.useClosestAps) {
      std::stable_sort(out.begin(), out.end(), [](const Radio& a, const Radio& b) { return a.rssi > b.rssi; });
      size_t n = (size_t)s.numClosestAps;
      if (out.size() > n) { if (n > 0) c.lt(out[n].rssi, out[n - 1].rssi); out.resize(n); c.probe("win.closest"); }
    }
    for (auto& r : out) {
      if (r.type == RT_RTT) r.distance -= s.wiFiRttOffset;
      else { int l = map->levelOfTx(r.id); if (l >= 0) { const Tx& t = map->levels[l].tx.at(r.id); r.distance = std::exp((t.A - r.rssi) / t.B); } }
    }
    return out;
  }

  // level
  std::map<int, int> cnt; int curLevel = -1; bool lvlInit = false;
  bool baroInit = false; std::deque<double> bNew, bOld; int baroLevel = -1;
  std::map<std::string, double> rpWeights(const Level& L, const std::vector<Radio>& msr, bool diff) {
    struct St { std::string tx; double meas, db; };
    std::map<std::string, std::vector<St>> st; std::map<std::string, double> w; double sum = 0;
    for (auto& m : msr) {
      double d = std::pow(10, ((m.power < 0.00001 ? -10.0 : m.power) - m.rssi) / 30.0), a = 1 / std::pow(d, 1.8); w[m.id] = a; sum += a;
      for (auto& r : L.rp) { auto it = r.mean.find(m.id); if (it != r.mean.end()) st[r.id].push_back({m.id, m.rssi, it->second}); }
    }
    for (auto& p : w) p.second /= sum;
    std::map<std::string, double> out;
    for (auto& p : st) {
      auto& v = p.second; if (v.size() < 3) continue;
      double pen = 0, norm = 0;
      for (size_t i = 0; i < v.size(); i++) {
        if (diff) for (size_t j = 0; j < i; j++) { double a = w[v[i].tx] * w[v[j].tx]; norm += a; pen += std::max(std::fabs((v[i].db - v[j].db) - (v[i].meas - v[j].meas)) * a, 1e-6); }
        else { double a = w[v[i].tx]; norm += a; pen += std::max(std::fabs(std::fabs(v[i].db) - std::fabs(v[i].meas)) * a, 1e-6); }
      }
      if (c.lt(1e-8, pen)) { if (norm > 1e-8) pen /= norm; pen = 1 / (std::sqrt(pen) / v.size()); }
      out[p.first] = pen;
    }
    return out;
  }
  int detect(const std::vector<Radio>& msr) {
    bool knn = s.useAlgorithm == 4 || s.useRadiomap; int best = -1; double bw = knn ? 0.0 : -1000.0;
    std::vector<double> all;
    for (size_t l = 0; l < map->levels.size(); l++) {
      const Level& L = map->levels[l]; double w; 
      if (knn) {
        if (s.useBestRefPointLevel) { w = 0; for (auto& p : rpWeights(L, msr, true)) w = std::max(w, p.second); }
        else {
          w = 0; int uniq = 0;
          for (auto& m : msr) { double sw = 0; int n = 0; for (auto& r : L.rp) { auto it = r.mean.find(m.id); if (it == r.mean.end()) continue; sw += 1 / (std::fabs(std::fabs(m.rssi) - std::fabs(it->second)) + 0.1); n++; } if (n) { w += sw / n; uniq++; } }
          w *= uniq;
        }
      } else {
        double r = 0, a = 0; int n = 0;
        for (auto& m : msr) { auto it = L.tx.find(m.id); if (it == L.tx.end()) continue; r += m.rssi; a += it->second.A; n++; }
        if (!n) continue;
        w = (r / n + (s.useTxPower ? a / n : 0)) / (1 + 0.1 * n / msr.size());
      }
      for (double o : all) if (w != 0 || o != 0) c.lt(w, o);
      all.push_back(w);
      if (w > bw) { bw = w; best = (int)l; }
    }
    return best;
  }
  int level(const std::vector<Radio>& msr, bool hasSensor, int stype, double sx) {
    int d = detect(msr);
    if (d >= 0) {
      if (!lvlInit) { lvlInit = true; curLevel = d; c.probe("lvl.first"); }
      if (d != curLevel) c.probe("lvl.other");
      if (++cnt[d] > 4) { if (d != curLevel) c.probe("lvl.change"); cnt.clear(); cnt[d] = 4; curLevel = d; }
    }
    if (!s.useBarometer) return curLevel;
    if (!baroInit) { baroInit = true; return curLevel; }
    if (hasSensor && stype == ST_BARO) {
      if (bOld.size() > 100) bOld.pop_front();
      if (bNew.size() > 100) { bOld.push_back(bNew.front()); bNew.pop_front(); }
      bNew.push_back(sx);
    }
    if (bNew.size() > 100 && bOld.size() >= 100) {
      if (baroLevel < 0 && curLevel >= 0) { baroLevel = curLevel; c.probe("baro.first"); }   // the first detection needs no change of pressure
      if (baroLevel != curLevel) {
        double mn = 0, mo = 0; for (double v : bNew) mn += v; for (double v : bOld) mo += v; mn /= bNew.size(); mo /= bOld.size();
        if (mn > std::numeric_limits<double>::epsilon() && mo > std::numeric_limits<double>::epsilon()) {
          double h = std::fabs(8.31 * 288.0 / (9.8 * 0.0289) * std::log(mn / mo));
          if (c.lt(2.0, h)) { baroLevel = curLevel; c.probe("baro.follow"); } else c.probe("baro.block");
        }
      }
    } else baroLevel = curLevel;
    return baroLevel;
  }

  // height, from the distances of this evaluation alone
  void altitude(Out& o, const std::vector<Radio>& msr) {
    const Level& L = map->levels[o.lvl]; struct B { const Tx* t; long double d; bool bad; }; std::vector<B> v;
    for (auto& m : msr) { auto it = L.tx.find(m.id); if (it != L.tx.end()) v.push_back({&it->second, m.distance, false}); if (m.mixed) o.altAmb = true; }   // signals of two kinds from one transmitter: its distance is not specified
    std::sort(v.begin(), v.end(), [](const B& a, const B& b) { return a.d < b.d; });
    auto near = [](long double a, long double b) { return std::fabs(a - b) <= 1e-9L * std::max(1.0L, std::max(std::fabs(a), std::fabs(b))); };
    for (size_t i = 0; i + 1 < v.size(); i++) if (near(v[i].d, v[i + 1].d)) o.altAmb = true;
    for (auto& a : v) if (!a.bad) for (auto& b : v) {   // spheres that cannot meet: the farther reading is wrong
      long double dx = b.t->p.x - a.t->p.x, dy = b.t->p.y - a.t->p.y, dz = b.t->z - a.t->z, gap = std::sqrt(dx * dx + dy * dy + dz * dz); if (near(gap, a.d + b.d)) o.altAmb = true;
      if (gap > a.d + b.d) { b.bad = true; c.probe("alt.dropped"); }
    }
    std::vector<B> g; for (auto& b : v) if (!b.bad) g.push_back(b);
    if (g.size() < 4) { if (!msr.empty()) c.probe("alt.few"); return; }
    // least squares of the differences to the nearest transmitter
    long double N[3][4] = {}; for (size_t i = 1; i < g.size(); i++) {
      long double r[3] = {(long double)g[i].t->p.x - g[0].t->p.x, (long double)g[i].t->p.y - g[0].t->p.y, (long double)g[i].t->z - g[0].t->z}, q = (g[0].d * g[0].d - g[i].d * g[i].d + r[0] * r[0] + r[1] * r[1] + r[2] * r[2]) / 2;
      for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) N[a][b] += r[a] * r[b]; N[a][3] += r[a] * q; }
    }
    long double big = std::max(N[0][0], std::max(N[1][1], N[2][2]));
    for (int p = 0; p < 3; p++) {
      int best = p; for (int a = p + 1; a < 3; a++) if (std::fabs(N[a][p]) > std::fabs(N[best][p])) best = a; std::swap(N[p], N[best]);
      if (!(std::fabs(N[p][p]) > 1e-8L * big)) { o.altAmb = true; c.probe("alt.flat"); return; }
      for (int a = 0; a < 3; a++) if (a != p) { long double f = N[a][p] / N[p][p]; for (int b = p; b < 4; b++) N[a][b] -= f * N[p][b]; }
    }
    long double X = N[0][3] / N[0][0] + g[0].t->p.x, Y = N[1][3] / N[1][1] + g[0].t->p.y, sum = 0, mag = 0, err = 0; bool any = false;
    for (auto& b : g) {
      long double dx = X - b.t->p.x, dy = Y - b.t->p.y, q = b.d * b.d - dx * dx - dy * dy, scale = b.d * b.d + dx * dx + dy * dy; if (std::fabs(q) < 1e-6L * scale) o.altAmb = true;
      if (q >= 0) { any = true; sum += (b.t->z + std::sqrt(q)) / b.d; mag += std::fabs(b.t->z + std::sqrt(q)) / b.d; err += 1e-9L * scale / std::sqrt(std::max(q, 1e-30L)) / b.d; }
    }
    if (!any) { c.probe("alt.none"); return; }
    o.alt = (double)sum; o.altTol = (double)(1e-6L * mag + err); c.probe("alt.known");
  }

  // gps
  Pos lastGps; bool flagIndoor = false; std::deque<P2> sigma; int nmeaSent = 0, nmeaSats = 0;
  Pos outdoor(ll ts, bool isLoc, const double* v) {
    bool has = isLoc; double dev = isLoc ? std::max(v[2], s.minGpsDeviation) : 0;
    bool bad = has && dev > s.maxGpsDeviation;
    if (flagIndoor || bad) sigma.clear();
    if (bad) { has = false; c.probe("gps.inaccurate"); }
    if (!has) { if ((ts - lastGps.ts) / 1000.0 > s.gpsValidTimeWindowSec) return Pos(); return lastGps; }
    for (size_t l = 0; l < map->levels.size(); l++) {
      const Level& L = map->levels[l]; P2 p = toLocal(v[0], v[1], L.blat, L.blon);
      if (!s.useGpsOutsideMap && !map->inBox(c, (int)l, p)) continue;
      Pos o; o.p = p; o.lvl = (int)l; o.dev = dev; o.ts = ts; o.empty = false; o.prov = GNSS;
      bool valid = true;
      if (ts != lastGps.ts && s.useGpsSigmaFilter && s.sigmaFilterWindow > 0) {
        size_t W = (size_t)s.sigmaFilterWindow; valid = false;
        if (sigma.size() == W) {
          double mx = 0, my = 0, ax = 0, ay = 0; for (auto& q : sigma) { mx += q.x; my += q.y; } mx /= W; my /= W;
          for (auto& q : sigma) { ax += (q.x - mx) * (q.x - mx); ay += (q.y - my) * (q.y - my); }
          double dx = 3 * std::sqrt(ax / W) + s.sigmaFilterDelta, dy = 3 * std::sqrt(ay / W) + s.sigmaFilterDelta;
          valid = !c.lt(dx, std::fabs(mx - p.x)) & !c.lt(dy, std::fabs(my - p.y));
          if (!valid) c.probe("gps.outlier");
          sigma.pop_front();
        }
        sigma.push_back(p);
      }
      int sats = nmeaSent == 1 ? nmeaSats : 0;
      if (valid && sats != 0 && sats < (int)s.minNumSats) { valid = false; c.probe("gps.sats"); }
      if (!valid) return Pos();
      lastGps = o; c.probe("gps.accepted"); return o;
    }
    c.probe("gps.offmap");
    return Pos();
  }

  // indoor
  Pos knnPos;
  Pos indoor(int lvl, ll ts, const std::vector<Radio>& msr, int& st) {
    const Level& L = map->levels[lvl];
    if (msr.empty()) { st = NO_SOL; return s.useAlgorithm == 4 ? knnPos : Pos(); }
    if (s.useAlgorithm != 4) {
      const Radio* best = nullptr;
      for (auto& m : msr) if (L.tx.count(m.id)) { if (!best) best = &m; else if (c.lt(best->rssi, m.rssi)) best = &m; }
      if (!best) { st = NO_SOL; c.probe("zone.none"); return Pos(); }
      Pos p; p.p = L.tx.at(best->id).p; p.lvl = lvl; p.dev = std::sqrt(std::exp((L.A - best->rssi) / L.B)) + 1; p.ts = ts; p.empty = false; p.prov = INDOOR; c.probe("zone.pos");
      return p;
    }
    std::vector<Radio> v; for (auto& m : msr) if (L.rpTx.count(m.id)) v.push_back(m);
    if (v.size() < (size_t)s.minNumOfMeasurementsForPositionCalculation) { st = NO_SOL; c.probe("knn.few"); return knnPos; }
    auto w = rpWeights(L, v, s.useDiffMode != 0);
    auto get = [&](int i) { auto it = w.find(L.rp[i].id); return it == w.end() ? 0.0 : it->second; };
    P2 p; bool have = false;
    if (s.useTriangles) {
      if (L.triAmb) c.amb = true;
      if (!L.hasTris) { st = NAV_ERR; c.probe("knn.notri"); return knnPos; }
      double best = -1; for (auto& t : L.tris) best = std::max(best, get(t.a) + get(t.b) + get(t.c));
      if (best < std::numeric_limits<double>::epsilon()) have = false;
      else for (auto& t : L.tris) {
        double a = get(t.a), b = get(t.b), d = get(t.c), n = a + b + d;
        if (n < best * (1 - 1e-9)) continue;
        P2 q{(a * L.rp[t.a].p.x + b * L.rp[t.b].p.x + d * L.rp[t.c].p.x) / n, (a * L.rp[t.a].p.y + b * L.rp[t.b].p.y + d * L.rp[t.c].p.y) / n};
        if (have && dist(p, q) > 1e-6) c.amb = true;
        p = q; have = true; c.probe("knn.tri");
      }
    } else {
      std::vector<std::pair<double, int>> all; for (size_t i = 0; i < L.rp.size(); i++) { auto it = w.find(L.rp[i].id); if (it != w.end()) all.push_back({it->second, (int)i}); }
      std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.first > b.first; });
      size_t k = std::min<size_t>((size_t)s.kNeighbors, all.size());
      if (k < all.size() && k > 0) c.lt(all[k].first, all[k - 1].first);
      double n = 0; for (size_t i = 0; i < k; i++) { p.x += all[i].first * L.rp[all[i].second].p.x; p.y += all[i].first * L.rp[all[i].second].p.y; n += all[i].first; }
      have = n >= std::numeric_limits<double>::epsilon(); if (have) { p.x /= n; p.y /= n; c.probe("knn.k"); }
    }
    if (!have) { st = NO_SOL; c.probe("knn.nomatch"); return knnPos; }
    knnPos = Pos(); knnPos.p = p; knnPos.lvl = lvl; knnPos.dev = 1; knnPos.ts = ts; knnPos.empty = false; knnPos.prov = INDOOR;
    return knnPos;
  }

  // fusion and post-processing
  struct { Pos in, out; double dev0 = 50, inDev = 50, outDev = 50; bool first = true; } ind;
  Pos fuse(ll ts, const Pos& i, const Pos& o, int st) {
    if (ind.first) { ind.inDev = ind.outDev = s.priorDeviation; ind.first = false; }
    auto upd = [&](Pos& mem, double& dev, const Pos& n) {
      if (n.empty) return;
      double pr = mem.empty ? s.priorDeviation : std::min(s.priorDeviation, dev + s.averageMovSpeed * std::max(0LL, n.ts - mem.ts) / 1000.0);
      mem = n; dev = (pr + n.dev) / 2;
    };
    upd(ind.in, ind.inDev, i); upd(ind.out, ind.outDev, o);
    const Pos &I = ind.in, &O = ind.out;
    if (s.useInstantGpsPosition && !o.empty) { c.probe("fuse.instant"); return o; }
    if (s.preferIndoorSolution && !i.empty && st == 0) { c.probe("fuse.prefer"); return i; }
    if (!s.useGps || O.empty) return I;
    if (I.empty) { c.probe("fuse.gpsonly"); return O; }
    double di = ts >= I.ts ? (ts - I.ts) / 1000.0 : 0, dO = ts >= O.ts ? (ts - O.ts) / 1000.0 : 0;
    if (di > s.positionIsTooOldSec) { c.probe("fuse.oldindoor"); return O; }
    if (dO > s.positionIsTooOldSec) { c.probe("fuse.oldgps"); return I; }
    double vi = s.averageMovSpeed * di + ind.inDev, vo = s.averageMovSpeed * dO + ind.outDev;
    if (s.fuseGps && I.lvl == O.lvl && c.lt(dist(I.p, O.p), I.dev + O.dev + s.fuseGpsBorderM)) {
      c.probe("fuse.blend");
      Pos f = I; f.ts = std::max(I.ts, O.ts); f.p = {(I.p.x * vo + O.p.x * vi) / (vo + vi), (I.p.y * vo + O.p.y * vi) / (vo + vi)}; f.dev = std::min(vi, vo); f.prov = FUSED; return f;
    }
    bool in = c.lt(vi, vo); c.probe(in ? "fuse.indoor" : "fuse.gps"); return in ? I : O;
  }
  ll ppStep = 0, ppUpd = 0; Pos lastOut; AB ab; Lstsq lsq; TimeSmooth tsm; bool held = false;
  void fix(Pos& p) {
    const Level& L = map->levels[p.lvl];
    auto f1 = [&](double v, double lo, double hi) {
      v = std::min(std::max(v, lo), hi);
      if (!held && v != lo && std::fabs(v * 100 - std::round(v * 100)) < 1e-7) c.amb = true;
      return std::floor(v * 100) / 100;
    };
    p.p = {f1(p.p.x, L.lo.x, L.hi.x), f1(p.p.y, L.lo.y, L.hi.y)};
  }
  Pos process(const Pos& f, ll ts, ll motion, int lvl) {
    if (motion > 0) ppStep = motion;
    if (f.empty) return Pos();
    if (!s.useGpsOutsideMap && !map->inBox(c, lvl, f.p)) { c.probe("pp.outside"); return Pos(); }
    if (ts - f.ts >= (ll)(1000 * s.deadReckoningTime)) { c.probe("pp.old"); return Pos(); }
    Pos r = f;
    if (s.useSmoothing) {
      if (lastOut.lvl != r.lvl) { if (lastOut.lvl >= 0) c.probe("pp.levelreset"); if (s.useAbFilter) ab.reset(r); else lsq.reset(r); }
      r = s.useAbFilter ? ab.smooth(c, s, *map, r) : lsq.smooth(c, s, *map, r);
    }
    if (s.useTimeSmoothing) r = tsm.smooth(c, r, ts);
    bool standing = s.useStops && ppStep > 0 && ts - ppStep >= (ll)(1000 * s.stopDetectionTime);
    held = false;
    if (standing && !lastOut.empty && lastOut.lvl == r.lvl) {
      if (ts - ppUpd > (ll)(1000 * s.stopUpdateTime) && c.lt(dist(lastOut.p, r.p), s.useStopsDistanceThresholdM)) { ppUpd = ts; lastOut = r; c.probe("stop.update"); }
      else { held = true; c.probe("stop.hold"); }
    } else { lastOut = r; lastOut.dev = f.dev; if (standing) c.probe("stop.nohold"); }
    lastOut.ts = ts;
    if (s.useGraphProjection) {
      const Level& L = map->levels[lvl]; double bd = -1; P2 bp, sp; double sd = -1;
      for (auto& e : L.edges) {
        P2 a = L.verts[e.first], b = L.verts[e.second]; double n = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y);
        double t = n > 0 ? ((lastOut.p.x - a.x) * (b.x - a.x) + (lastOut.p.y - a.y) * (b.y - a.y)) / n : 0; t = std::min(1.0, std::max(0.0, t));
        P2 q{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}; double d = dist(q, lastOut.p);
        if (bd < 0 || d < bd) { sd = bd; sp = bp; bd = d; bp = q; } else if (sd < 0 || d < sd) { sd = d; sp = q; }
      }
      if (bd >= 0) {
        if (sd >= 0 && sd - bd < 1e-9 && dist(sp, bp) > 1e-6) c.amb = true;
        if (c.lt(bd, s.graphProjDist)) { if (held && bd > 1e-3) {} lastOut.p = bp; c.probe("graph.project"); if (bd > 1e-9) held = false; } else c.probe("graph.far");
      }
    }
    fix(lastOut);
    return lastOut;
  }

  // sensors
  Pedometer ped; Filter filt; ll lastMotion = 0; int stepCount = 0;
  Pos position;

  // one call
  std::vector<Out> navigate(const std::vector<Msg>& batch) {
    std::vector<Out> res; if (batch.empty()) return res;
    ll prev = batch[0].ts;
    for (auto& m : batch) {
      if (m.ts < prev) { c.probe("nav.stale"); continue; }
      prev = m.ts; res.push_back(one(m));
    }
    return res;
  }
  Out one(const Msg& m) {
    Out o; ll now = m.ts; bool sensor = false; 
    if (m.kind == MK_RADIO) {
      if (eligible(m)) { if (cur == 0) lastEx = now; cur = now; buf.push_back({now, Radio{m.type, m.id, m.v[0], m.v[1], m.v[2]}}); lastSignal = now; c.probe("sig.used"); }
    } else if (m.kind == MK_SENSOR) {
      bool scalar = m.type == ST_BARO || m.type == ST_ORI;
      sensor = std::isfinite(m.v[0]) && (scalar || (std::isfinite(m.v[1]) && std::isfinite(m.v[2])));
    } else { nmeaSent = m.n1; nmeaSats = m.n2; }
    double len = 0;
    if (sensor) {
      auto st = ped.add(c, now, m.type == ST_ACC, std::sqrt(m.v[0] * m.v[0] + m.v[1] * m.v[1] + m.v[2] * m.v[2]));
      filt.add(now, m.type, {m.v[0], m.v[1], m.v[2]});
      if (!st.empty()) { for (auto& x : st) len += x.second; len *= s.stepMultiplier; lastMotion = now; stepCount += (int)st.size(); }
    }
    double az = 0; bool azOk = false;
    if (s.useCalculatedAzimuth) { az = filt.magAz; azOk = true; } else if (!filt.devOutdated(s.deviceAzimuthLifetimeSeconds, now)) { az = filt.devAz; azOk = true; }
    auto radio = extract(lastMotion);
    if (!radio.empty()) c.probe("nav.evaluated");
    int lvl = level(radio, sensor, m.type, m.v[0]);
    Pos out = outdoor(now, sensor && m.type == ST_LOC && std::fabs(m.v[0]) <= 90 && std::fabs(m.v[1]) <= 360 && m.v[2] <= 1e7, m.v);
    flagIndoor = false;
    if (now - lastSignal >= (ll)(1000 * s.noSignalTimeThreshold)) { if (lvl >= 0) c.probe("nav.nosignal"); lvl = -1; }
    ll na = (ll)(1000 * s.noActionTimeThreshold);
    if (now - lastSignal >= na && now - lastMotion >= na && lastMotion > 0) { if (lvl >= 0) c.probe("nav.noaction"); lvl = -1; }
    int st = OK; o.levelKnown = lvl >= 0;
    if (lvl >= 0) {
      Pos in = indoor(lvl, now, radio, st);
      if (!in.empty) flagIndoor = true;
      if (!out.empty && out.lvl != lvl) {
        P2 g = toGeo(out.p, map->levels[out.lvl].blat, map->levels[out.lvl].blon);
        out.p = toLocal(g.x, g.y, map->levels[lvl].blat, map->levels[lvl].blon); out.lvl = lvl; c.probe("gps.rebased");
      }
      Pos f = fuse(now, in, out, st);
      position = process(f, now, lastMotion, f.empty ? lvl : f.lvl);
    } else if (!out.empty) { position = out; c.probe("nav.gpsonly"); }
    else { position = Pos(); st = NO_LEVEL; }
    if (!azOk) az = M_PI / 2;
    if (s.useEnuAzimuth) az = -az + M_PI / 2;
    o.steps = stepCount; o.stepLen = len; o.in = ind.in.p; o.out = ind.out.p;
    if (position.empty) { o.status = st == OK ? (int)NAV_ERR : st; }
    else {
      o.status = OK; o.lvl = position.lvl; o.xy = position.p; P2 g = toGeo(position.p, map->levels[o.lvl].blat, map->levels[o.lvl].blon); o.lat = g.x; o.lon = g.y;
      o.r = position.dev; o.prov = position.prov; o.ori = wrap(az); o.oriTol = 1e-5 + std::fabs(az) * 1e-14; if (s.useAltitude) altitude(o, radio);
    }
    o.amb = c.amb;
    return o;
  }
  // discrete abstraction of the state, for counting distinct states
  uint64_t state(const Out& o) const {
    Hash64 h; h.add((ll)o.status); h.add((ll)o.lvl); h.add((ll)o.prov); h.add((ll)curLevel); h.add((ll)baroLevel); for (auto& p : cnt) { h.add((ll)p.first); h.add((ll)p.second); }
    h.add((ll)std::min<size_t>(buf.size(), 8)); h.add((ll)held); h.add((ll)flagIndoor); h.add((ll)std::min<size_t>(sigma.size(), 6)); h.add((ll)ind.in.empty); h.add((ll)ind.out.empty);
    h.add((ll)ab.called); h.add((ll)std::min<size_t>(lsq.x.pt.size(), 4)); h.add((ll)(lastMotion > 0)); return h.h;
  }
};

} // namespace model
