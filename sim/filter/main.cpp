// C23: the standalone orientation filter. Three sensors with clocks, rates and faults of their own are merged by a seeded
// schedule; after every sample attitude and azimuths are compared with an independent formulation of the filter.
#include <complementary_filter.h>
#include <array>
#include <memory>
#include "../main.hpp"
#include "../small.hpp"
#ifdef SIM_SOAK
#include "../small_soak.hpp"
#endif
namespace nv = navigine::navigation_core;

namespace {
typedef std::array<double, 3> V; typedef std::array<double, 4> Q;   // Q = w x y z, body to world
double dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
V cross(V a, V b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
V unit(V a) { double n = std::sqrt(dot(a, a)); return n > 2.3e-16 ? V{a[0] / n, a[1] / n, a[2] / n} : a; }
struct Ref {
  Q q{1, 0, 0, 0}; double Ka = .1, Km = .05, Ki = 0; V integral{0, 0, 0}; ll gyroTs = -1, ts = -1; double magAz = 0, devAz = 0; bool magSure = true;
  V world(V b) const { V u{q[1], q[2], q[3]}; V c = cross(u, b), d = cross(u, c); V o; for (int i = 0; i < 3; i++) o[i] = b[i] + 2 * (q[0] * c[i] + d[i]); return o; }
  V body(V w) const { V u{-q[1], -q[2], -q[3]}; V c = cross(u, w), d = cross(u, c); V o; for (int i = 0; i < 3; i++) o[i] = w[i] + 2 * (q[0] * c[i] + d[i]); return o; }
  void rotate(V w) {   // first order step, renormalised; a step that cannot be represented is dropped
    V u{q[1], q[2], q[3]}; V c = cross(u, w); Q n{q[0] - .5 * dot(u, w), q[1] + .5 * (q[0] * w[0] + c[0]), q[2] + .5 * (q[0] * w[1] + c[1]), q[3] + .5 * (q[0] * w[2] + c[2])};
    double k = 0; for (double x : n) k += x * x; k = std::sqrt(k); if (!std::isfinite(k)) return; for (double& x : n) x /= k; q = n;
  }
  double roll() const { V z = body({0, 0, 1}); return std::atan2(z[1], z[2]); }
  double sinPitch() const { return -body({0, 0, 1})[0]; }
  double yaw() const { V x = world({1, 0, 0}); return std::atan2(x[1], x[0]); }
  bool lock() const { return std::fabs(sinPitch()) > 1 - 1e-7; }
  void sample(int type, ll t, V v) {
    for (double x : v) if (!std::isfinite(x)) return;
    if (type == ST_ACC) { V e = cross(unit(v), body({0, 0, 1})); rotate({Ka * e[0], Ka * e[1], Ka * e[2]}); if (Ki > 1e-8) for (int i = 0; i < 3; i++) integral[i] += Ki * e[i]; }
    else if (type == ST_MAG) {
      V m = unit(v);
      if (gyroTs == -1 && std::sqrt(dot(m, m)) >= 1e-8) { V w = world(m); V e = cross(m, body({0, std::sqrt(w[0] * w[0] + w[1] * w[1]), w[2]})); rotate({Km * e[0], Km * e[1], Km * e[2]}); if (Ki > 1e-8) for (int i = 0; i < 3; i++) integral[i] += Ki * e[i]; }
      // the heading: where north lies in the frame that is levelled like the device but not turned
      V w = world(m); magSure = std::hypot(w[0], w[1]) > 1e-6 && !lock(); magAz = levelled(m);
    } else if (type == ST_GYRO) { if (gyroTs == -1) gyroTs = t; double dt = (double)(t - gyroTs) / 1000; gyroTs = t; rotate({v[0] * dt + integral[0] * dt, v[1] * dt + integral[1] * dt, v[2] * dt + integral[2] * dt}); }
    else if (type == ST_ORI) devAz = v[0];
    ts = t;
  }
  double levelled(V m) {
    V w = world(m); double h = std::atan2(w[1], w[0]); return M_PI / 2 + (M_PI - yaw()) + h;   // the levelled frame is the world frame turned by pi - yaw about the vertical
  }
};
}

#ifdef SIM_SOAK
struct App {
  const Trace& t; std::unique_ptr<nv::ComplementaryFilter> f; explicit App(const Trace& x) : t(x) {}
  void make() { hook::Arm a; f = t.par.count("default") ? std::make_unique<nv::ComplementaryFilter>() : std::make_unique<nv::ComplementaryFilter>(t.par.at("Ka"), t.par.at("Km"), t.par.at("Ki")); }
  bool message(const Msg& x) {
    static const nv::SensorMeasurement::Type ty[]{nv::SensorMeasurement::Type::ACCELEROMETER, nv::SensorMeasurement::Type::MAGNETOMETER, nv::SensorMeasurement::Type::GYROSCOPE, nv::SensorMeasurement::Type::BAROMETER, nv::SensorMeasurement::Type::LOCATION, nv::SensorMeasurement::Type::ORIENTATION};
    nv::SensorMeasurement m; m.type = ty[x.type]; m.ts = x.ts; m.values = nv::Vector3d(x.v[0], x.v[1], x.v[2]); hook::Arm a; f->update(m); (void)f->getFusedOrientation(); (void)f->getFusedAzimuth(); (void)f->getMagneticAzimuth(); (void)f->getDeviceAzimuth(); return true;
  }
  bool step(const Op& o) { if (o.op == 'X') { hook::Arm a; auto c = std::make_unique<nv::ComplementaryFilter>(*f); f = std::move(c); } return false; }
};
#endif
Result execute(const Trace& t) {
#ifdef SIM_SOAK
  if (t.profile == "C27") { App a(t); return small::soakAlone(t, a); }
#endif
  Result R; small::Obs H; hook::st.fill = 0xA5; hook::Arm arm; bool dflt = t.par.count("default"); double Ka = .1, Km = .05, Ki = 0; if (!dflt) { Ka = t.par.at("Ka"); Km = t.par.at("Km"); Ki = t.par.at("Ki"); }
  auto make = [&] { return dflt ? std::make_unique<nv::ComplementaryFilter>() : std::make_unique<nv::ComplementaryFilter>(Ka, Km, Ki); }; auto freshRef = [&] { Ref r; r.Ka = Ka; r.Km = Km; r.Ki = Ki; return r; };
  auto real = make(); Ref ref = freshRef(), shadow = ref; bool known = true; ll op = -1, bad = 0, tailN = 0; double tailStart = -1; std::set<int> kinds; ll tailFrom = t.par.count("tailFrom") ? (ll)t.par.at("tailFrom") : -1; V tailAcc{0, 0, 1};
  static const nv::SensorMeasurement::Type ty[]{nv::SensorMeasurement::Type::ACCELEROMETER, nv::SensorMeasurement::Type::MAGNETOMETER, nv::SensorMeasurement::Type::GYROSCOPE, nv::SensorMeasurement::Type::BAROMETER, nv::SensorMeasurement::Type::LOCATION, nv::SensorMeasurement::Type::ORIENTATION};
  auto tilt = [&](V acc) { auto o = real->getFusedOrientation(); V g{-std::sin(o.pitch), std::sin(o.roll) * std::cos(o.pitch), std::cos(o.roll) * std::cos(o.pitch)}; double c = dot(g, unit(acc)); V k = cross(g, unit(acc)); return std::atan2(std::sqrt(dot(k, k)), c); };
  for (auto& o : t.ops) {
    op++;
    if (o.op == 'R') { real = make(); ref = shadow = freshRef(); known = true; R.probes["restart"]++; H.disc(-2); continue; }
    if (o.op == 'X') { auto c = std::make_unique<nv::ComplementaryFilter>(*real); real = std::move(c); R.probes["moved to a copy"]++; continue; }
    if (o.op != 'M') continue;
    R.calls++; R.msgs++; nv::SensorMeasurement m; m.type = ty[o.m.type]; m.ts = o.m.ts; m.values = nv::Vector3d(o.m.v[0], o.m.v[1], o.m.v[2]); bool fin = std::isfinite(o.m.v[0]) && std::isfinite(o.m.v[1]) && std::isfinite(o.m.v[2]); if (!fin) bad++;
    double mx = std::max({std::fabs(o.m.v[0]), std::fabs(o.m.v[1]), std::fabs(o.m.v[2])}); if (fin && mx > 1e100 && o.m.type != ST_ORI && o.m.type != ST_BARO && o.m.type != ST_LOC) { known = false; R.probes["sample near the number range"]++; }
    if (tailFrom >= 0 && op == tailFrom) { tailStart = tilt({o.m.v[0], o.m.v[1], o.m.v[2]}); tailAcc = {o.m.v[0], o.m.v[1], o.m.v[2]}; } if (tailStart >= 0) tailN++;
    real->update(m); ref.sample(o.m.type, o.m.ts, {o.m.v[0], o.m.v[1], o.m.v[2]}); kinds.insert(o.m.type);
    // the shadow is the reference with rounding errors ten times those of the real arithmetic: where it drifts off, the run is chaotic and no longer compared
    shadow.sample(o.m.type, o.m.ts, {o.m.v[0], o.m.v[1], o.m.v[2]}); shadow.q[op & 3] += (op & 4) ? 2e-15 : -2e-15; if (known) { double dq = 0; for (int i = 0; i < 4; i++) dq = std::max(dq, std::fabs(shadow.q[i] - ref.q[i])); for (int i = 0; i < 3; i++) if (!small::near(shadow.integral[i], ref.integral[i], 1e-8)) dq = 1; if (!(dq < 1e-8)) { known = false; R.ambiguous = true; R.probes["chaotic run"]++; } }
    auto e = real->getFusedOrientation(); double az = real->getFusedAzimuth(), mag = real->getMagneticAzimuth(), dev = real->getDeviceAzimuth();
    H.out(e.roll); H.out(e.pitch); H.out(e.yaw); H.disc(e.ts); H.out(az); H.out(mag); H.out(dev); H.s.add((ll)o.m.type); if (std::isfinite(e.yaw)) H.s.add((ll)std::floor(e.yaw * 4));
    { Hash64 q; q.add((ll)o.m.type); q.add((ll)(ref.gyroTs == -1)); q.add((ll)fin); if (std::isfinite(e.yaw) && std::isfinite(e.roll)) { q.add((ll)std::floor(e.yaw * 3)); q.add((ll)std::floor(e.roll * 3)); q.add((ll)std::floor(e.pitch * 3)); } R.states.insert(q.h); }
    std::string on = " after sensor " + std::to_string(o.m.type) + " at " + std::to_string(o.m.ts);
    for (double x : {e.roll, e.pitch, e.yaw, az, mag}) if (!std::isfinite(x)) R.fail("angle not finite", "roll " + dbl(e.roll) + " pitch " + dbl(e.pitch) + " yaw " + dbl(e.yaw) + " magnetic " + dbl(mag) + on, op);
    if (std::fabs(az) > M_PI + 1e-12 || std::fabs(e.roll) > M_PI + 1e-12 || std::fabs(e.pitch) > M_PI / 2 + 1e-12 || mag < -M_PI - 1e-12 || mag > M_PI + 1e-12) R.fail("angle out of range", dbl(az) + " " + dbl(mag) + on, op);
    if (!(small::angDiff(az, -e.yaw) <= 1e-12)) R.fail("azimuth and yaw disagree", dbl(az) + " " + dbl(e.yaw), op);
    if (e.ts != ref.ts) R.fail("time stamp", std::to_string(e.ts) + ", expected " + std::to_string(ref.ts) + on, op);
    if (!small::near(dev, ref.devAz, 0, 1e-15)) R.fail("device azimuth", dbl(dev) + ", expected " + dbl(ref.devAz) + on, op);
    if (known) {
      double sp = ref.sinPitch(); sp = std::max(-1., std::min(1., sp)); if (std::fabs(std::sin(e.pitch) - sp) > 1e-7) R.fail("pitch", dbl(e.pitch) + ", expected " + dbl(std::asin(sp)) + on, op);
      if (!ref.lock()) { if (small::angDiff(e.roll, ref.roll()) > 1e-5) R.fail("roll", dbl(e.roll) + ", expected " + dbl(ref.roll()) + on, op); if (small::angDiff(e.yaw, ref.yaw()) > 1e-5) R.fail("yaw", dbl(e.yaw) + ", expected " + dbl(ref.yaw()) + on, op); } else R.probes["near gimbal lock"]++;
      if (ref.magSure && small::angDiff(mag, ref.magAz) > 1e-4) R.fail("magnetic azimuth", dbl(mag) + ", expected " + dbl(std::remainder(ref.magAz, 2 * M_PI)) + on, op);
    }
    if (R.violation) break;
  }
  if (!R.violation && tailStart >= 0 && tailN >= t.par.at("tailN")) { double e = tilt(tailAcc); R.probes["convergence judged"]++; if (tailStart < M_PI - 2e-3 && e > .01) R.fail("no convergence", "after " + std::to_string(tailN) + " samples of a device at rest its attitude is still " + dbl(e) + " rad away from gravity, " + dbl(tailStart) + " at first", op); }
  if (bad) R.probes["samples not finite"] += bad; R.nontrivial = kinds.size() >= 3; R.hash = H.h.h; R.sig = H.s.h; return R;
}

Trace generate(const std::string& profile, uint64_t seed, ll idx) {
#ifdef SIM_SOAK
  if (profile == "C27") { Rng r(seed * 1000003ull + 47, (uint64_t)idx * 7919 + 27); Trace t = generate("", seed, idx); Op u, c; u.op = 'X'; u.n = 1; c.op = 'N'; (void)u; (void)c; return small::stretch(t, r, r.i(30, 250), {}); }
#endif
  Trace T; T.profile = profile; T.seed = seed; T.index = idx; Rng r(seed * 1000003ull + 37, (uint64_t)idx * 7919 + 23); T.settings.push_back({});
  auto fault = [&](const std::string& k, ll n = 1) { T.faults[k] += n; };
  bool dflt = r.p(.3); if (dflt) T.par["default"] = 1; else { T.par["Ka"] = r.p(.1) ? 0 : r.p(.2) ? r.uni(.3, .9) : r.uni(.01, .2); T.par["Km"] = r.p(.1) ? 0 : r.uni(.005, .3); T.par["Ki"] = r.p(.5) ? 0 : r.p(.3) ? r.uni(.05, .5) : r.uni(.0005, .05); }
  double Ka = dflt ? .1 : T.par["Ka"], Ki = dflt ? 0 : T.par["Ki"];
  ll dur = r.i(200, r.p(.2) ? 60000 : 12000), t0 = r.p(.5) ? r.i(0, 3000) : 1500000000000ll + r.i(0, 1000000000); double t = 0, roll = r.uni(-3, 3), pitch = r.uni(-1.5, 1.5), yaw = r.uni(-3, 3), rate = r.p(.2) ? 0 : r.uni(0, 3), wx = 0, wy = 0, wz = 0; if (r.p(.3)) roll = pitch = 0;
  std::vector<Msg> in; std::vector<std::pair<int, double>> sensors; for (auto s : {ST_ACC, ST_MAG, ST_GYRO, ST_BARO, ST_LOC, ST_ORI}) if (r.p(s == ST_BARO || s == ST_LOC ? .15 : s == ST_ORI ? .4 : .85)) sensors.push_back({s, r.p(.2) ? r.uni(1, 5) : r.uni(10, 100)});
  std::map<int, double> next; double noise = r.p(.3) ? 0 : r.uni(0, .3), dip = r.uni(.2, 1.3); bool freefall = r.p(.1), gyroLate = r.p(.5); ll gyroFrom = gyroLate ? r.i(0, dur) : 0; for (auto& s : sensors) next[s.first] = r.uni(0, 1000 / s.second); double resetAt = r.uni(0, 2000);
  while (t < dur && !sensors.empty()) {
    auto it = std::min_element(sensors.begin(), sensors.end(), [&](auto& a, auto& b) { return next[a.first] < next[b.first]; }); double nt = next[it->first], dt = (nt - t) / 1000; t = nt; next[it->first] += 1000 / it->second * r.uni(.7, 1.3);
    if (t > resetAt) { resetAt = t + r.uni(200, 3000); wx = rate * r.uni(-1, 1); wy = rate * r.uni(-1, 1); wz = rate * r.uni(-1, 1); } roll += wx * dt; pitch += wy * dt; yaw += wz * dt;
    double cr = std::cos(roll), sr = std::sin(roll), cp = std::cos(pitch), sp = std::sin(pitch), cy = std::cos(yaw), sy = std::sin(yaw);
    auto bodyOf = [&](double X, double Y, double Z) { double x1 = cy * X + sy * Y, y1 = -sy * X + cy * Y, z1 = Z, x2 = cp * x1 - sp * z1, z2 = sp * x1 + cp * z1; return V{x2, cr * y1 + sr * z2, -sr * y1 + cr * z2}; };
    Msg m; m.kind = MK_SENSOR; m.type = it->first; m.ts = t0 + (ll)t; V v{0, 0, 0};
    switch (it->first) { case ST_ACC: v = freefall && r.p(.2) ? V{0, 0, 0} : bodyOf(0, 0, 9.80665); break; case ST_MAG: v = bodyOf(0, 50 * std::cos(dip), -50 * std::sin(dip)); break; case ST_GYRO: if (t < gyroFrom) continue; v = V{wx, wy, wz}; break; case ST_ORI: v = V{std::remainder(yaw, 2 * M_PI), 0, 0}; break; default: v = V{r.uni(900, 1100), r.uni(-5, 5), 0}; }
    for (int i = 0; i < 3; i++) { m.v[i] = v[i] + noise * r.gauss(); } in.push_back(m);
  }
  small::Transport tr(r, T); auto del = tr.deliver(in, r.p(.5)); std::vector<Msg> d; for (auto& x : del) d.push_back(x.second);
  if (r.p(.7)) { std::stable_sort(d.begin(), d.end(), [](const Msg& a, const Msg& b) { return a.ts < b.ts; }); } else if (!d.empty()) { ll m = d[0].ts; for (auto& x : d) { if (x.ts < m) { fault("arrives after a newer sample"); x.ts = m; } m = std::max(m, x.ts); } }   // ascending order is the caller's duty
  if (tr.corrupt > 0) for (auto& m : d) if (r.p(tr.corrupt)) { static const std::vector<double> bad{NAN, INFINITY, -INFINITY, 0, 1e-200, 1e-9, 1e4, 1e9, 1e60, 1e155, 1.7e308}; double b = r.pick(bad); int k = (int)r.i(0, 3); if (k == 3) m.v[0] = m.v[1] = m.v[2] = b; else m.v[k] = b; if (std::fabs(b) >= 1e100 && r.p(.7)) m.v[k % 3] = NAN; fault("sample corrupted"); }
  if (tr.jump && !d.empty()) { size_t at = (size_t)r.i(0, (ll)d.size() - 1); ll j = r.i(1, r.p(.5) ? 3000 : 100000000); for (size_t i = at; i < d.size(); i++) d[i].ts += j; fault("clock jumped ahead"); }
  double pC = r.p(.3) ? .01 : 0, pR = r.p(.15) ? .003 : 0; for (auto& m : d) { Op o; o.m = m; T.ops.push_back(o); if (pC > 0 && r.p(pC)) { Op x; x.op = 'X'; x.n = 2; T.ops.push_back(x); fault("moved to a copy"); } if (pR > 0 && r.p(pR)) { Op x; x.op = 'R'; T.ops.push_back(x); fault("restart"); } }
  if (r.p(.4) && Ka > 0) {   // faults stop and the device rests
    ll n = (ll)(40 / Ka), ts = d.empty() ? t0 : d.back().ts; V a{r.gauss(), r.gauss(), r.gauss()}; a = unit(a); T.par["tailFrom"] = (double)T.ops.size(); T.par["tailN"] = (double)n;
    bool other = r.p(.5) && Ki == 0; ll made = 0; while (made < n) { Op o; o.m.kind = MK_SENSOR; o.m.ts = ts += r.i(5, 30); if (other && made && r.p(.3)) { o.m.type = ST_GYRO; T.ops.push_back(o); n++; made++; continue; } o.m.type = ST_ACC; for (int i = 0; i < 3; i++) o.m.v[i] = 9.8 * a[i]; T.ops.push_back(o); made++; } T.par["tailN"] = (double)made;
  }
  T.simMs = T.ops.empty() ? 0 : (ll)t; return T;
}
int main(int argc, char** argv) { return proto::mainLoop(argc, argv); }
