// C21: the measurement log, settings and map loaders against a simulated disk.
#include <cerrno>
#include <tuple>
#include <nlohmann/json.hpp>
#include "../core/real.hpp"
#include "../core/gen.hpp"
#include "../main.hpp"
#include SIM_HELPERS
#include "io.hpp"
namespace nc = navigine::navigation_core;
using J = nlohmann::json;

// ================================================= reference reading ============================================
// What a text line of a log says. sure=false: values of an unexpected JSON kind, either outcome is accepted.
struct Rec { bool sure = true, good = false; Msg m; };
static bool isInt(const J& j) { return j.is_number_integer() || j.is_number_unsigned(); }
static bool small(const J& j) { if (j.is_number_unsigned()) return j.get<uint64_t>() < 2000000000ull; return j.get<int64_t>() > -2000000000ll && j.get<int64_t>() < 2000000000ll; }
static Rec readLine(const std::string& line) {
  Rec r; J j = J::parse(line, nullptr, false); if (j.is_discarded() || !j.is_object()) return r;
  if (!j.count("timestamp") || !j.count("type")) return r;
  const J &ts = j["timestamp"], &ty = j["type"]; if (!ts.is_number() && !ts.is_boolean()) return r; if (!ty.is_number() && !ty.is_boolean()) return r;
  if (!isInt(ts) || !isInt(ty) || !small(ty) || (ts.is_number_unsigned() && ts.get<uint64_t>() > (uint64_t)INT64_MAX)) { r.sure = false; }
  int t = ty.is_boolean() ? (int)ty.get<bool>() : (int)ty.get<double>(); r.m.ts = ts.is_boolean() ? (ll)ts.get<bool>() : isInt(ts) ? ts.get<ll>() : 0;
  static const std::map<int, int> sensors{{101, ST_ACC}, {102, ST_GYRO}, {103, ST_MAG}, {104, ST_BARO}, {105, ST_ORI}, {106, ST_LOC}}, radios{{201, RT_WIFI}, {202, RT_BLUETOOTH}, {203, RT_BEACON}, {204, RT_EDDYSTONE}, {205, RT_RTT}};
  if (sensors.count(t)) {
    r.m.kind = MK_SENSOR; r.m.type = sensors.at(t); if (!j.count("values") || !(j["values"].is_array())) { if (j.count("values")) r.sure = !j["values"].is_object(); return r; }
    auto& v = j["values"]; for (auto& x : v) { if (x.is_boolean()) r.sure = false; else if (!x.is_number()) return r; }
    if (v.size() != 3) return r;
    for (int i = 0; i < 3; i++) if (v[i].is_number()) r.m.v[i] = v[i].get<double>();
    r.good = true;
  } else if (radios.count(t)) {
    r.m.kind = MK_RADIO; r.m.type = radios.at(t); if (!j.count("bssid") || !j["bssid"].is_string()) return r; r.m.id = j["bssid"].get<std::string>();
    for (auto f : {std::make_pair("rssi", 0), std::make_pair("distance", 2)}) if (j.count(f.first)) { auto& x = j[f.first]; if (x.is_boolean()) r.sure = false; else if (!x.is_number()) return r; else r.m.v[f.second] = x.get<double>(); }
    r.good = true;
  } else if (t == 300) {
    r.m.kind = MK_NMEA; for (auto f : {std::make_pair("sentence_number", 1), std::make_pair("num_sats", 2)}) { if (!j.count(f.first)) return r; auto& x = j[f.first]; if (!x.is_number() && !x.is_boolean()) return r; if (!isInt(x) || !small(x)) r.sure = false; else (f.second == 1 ? r.m.n1 : r.m.n2) = x.get<int>(); }
    r.good = true;
  }
  return r;
}
static std::string show(const Msg& m) { std::ostringstream o; o << "ts " << m.ts << " kind " << m.kind << " type " << m.type << " id '" << m.id << "' values " << m.v[0] << "," << m.v[1] << "," << m.v[2] << " n " << m.n1 << "," << m.n2; return o.str(); }
static Msg plainMsg(const nc::Measurement& x) {
  Msg m; m.ts = x.ts;
  if (auto r = boost::get<nc::RadioMeasurementData>(&x.data)) { m.kind = MK_RADIO; m.type = (int)r->type; m.id = r->id.value; m.v[0] = r->rssi; m.v[1] = r->power; m.v[2] = r->distance; m.v[3] = r->stddev; }
  else if (auto s = boost::get<nc::SensorMeasurementData>(&x.data)) { m.kind = MK_SENSOR; m.type = (int)s->type; m.v[0] = s->values.x; m.v[1] = s->values.y; m.v[2] = s->values.z; }
  else if (auto n = boost::get<nc::NmeaMeasurementData>(&x.data)) { m.kind = MK_NMEA; m.n1 = n->sentenceNumber; m.n2 = n->satellitesNumber; }
  return m;
}
static bool eqD(double a, double b) { return a == b || (a != a && b != b); }
static bool eq(const Msg& a, const Msg& b) { return a.ts == b.ts && a.kind == b.kind && a.type == b.type && a.id == b.id && eqD(a.v[0], b.v[0]) && eqD(a.v[1], b.v[1]) && eqD(a.v[2], b.v[2]) && eqD(a.v[3], b.v[3]) && a.n1 == b.n1 && a.n2 == b.n2; }

// documented names of the settings
enum FK { FB, FI, FD, FE };
struct Field { const char* key; FK kind; double (*get)(const nc::CommonSettings&); std::vector<const char*> names; };
#define F(key, kind, member) {key, kind, [](const nc::CommonSettings& c) { return (double)c.member; }, {}}
#define FENUM(key, member, ...) {key, FE, [](const nc::CommonSettings& c) { return (double)(int)c.member; }, {__VA_ARGS__}}
static const std::vector<Field>& fields() {
  static const std::vector<Field> f{
    FENUM("Use_algorithm", useAlgorithm, "PF_PDR", "PF_NOPDR", "ZONES", "GRAPH", "KNN"), F("Correction_noise", FD, lklCorrectionNoise), F("Use_enu_azimuth", FB, useEnuAzimuth), F("Differention_mode", FB, useDifferentionMode), F("Use_beacon_power", FB, useTxPower),
    F("Use_radiomap", FB, useRadiomap), F("Use_stops", FB, useStops), F("Use_tracking", FB, useTracking), F("Stop_detection_time", FD, stopDetectionTime), F("Min_deviation_m", FD, minDeviationM), F("Average_speed", FD, averageMovSpeed),
    FENUM("Measurement_type", measurementType, "rssi", "distance_v1", "distance_v2"), F("Use_best_ref_point_level", FB, useBestRefPointLevel), F("Use_barometer", FB, useBarometer), F("Use_unknown_beacons", FB, useUnknownTransmitters), F("Cutoff_rss", FD, sigCutOffRss),
    F("Use_closest_aps", FB, useClosestAps), F("N_closest_aps", FI, numClosestAps), F("Sig_averaging_time", FD, sigAveragingTime), F("Sig_window_shift", FD, sigWindowShift), FENUM("Use_Signals", signalsToUse, "ble", "wifi", "both"), F("N_particles", FI, numParticles),
    F("Min_msr_num_for_mutation", FI, minMsrNumForMutation), F("Resampling_threshold_num", FD, resamplingThreshold), F("Min_num_of_particles", FI, minNumParticlesAlive), F("Gyro_noise_degree", FD, gyroNoiseDegree), F("Step_noise_deviation_meters", FD, stepNoiseDeviationMeters),
    F("Use_projection_to_white_area", FB, useProjectionToWhiteArea), F("N_particles_around_closest_AP", FI, numParticlesAroundClosestAp), F("N_particles_to_mutate", FI, numParticlesToMutate), F("Num_sampling_attempts", FI, numSamplingAttempts), F("Num_initialization_attempts", FI, numInitializationAttempts),
    F("Use_uniform_sampling", FB, useUniformSampling), F("K", FI, kNeighbors), F("Use_triangles", FB, useTriangles), F("Use_diff_mode", FB, useDiffMode), F("Min_num_of_measurements_for_position_calculation", FI, minNumOfMeasurementsForPositionCalculation), F("Smoothing", FD, smoothing),
    F("Dead_reckon_time", FD, deadReckoningTime), F("Stop_update_time", FD, stopUpdateTime), F("Graph_prog_distance", FD, graphProjDist), F("Stopped_distance_threshold_m", FD, useStopsDistanceThresholdM), F("Use_smoothing", FB, useSmoothing), F("Use_graph_projection", FB, useGraphProjection),
    F("Use_accuracy_for_smoothing", FB, useAccuracyForSmoothing), F("Use_speed_constraint", FB, useSpeedConstraint), F("Use_barriers", FB, useBarriers), F("Use_time_smoothing", FB, useTimeSmoothing), F("Use_ab_filter", FB, useAbFilter), F("Use_gps", FB, useGps),
    F("Use_instant_gps_position", FB, useInstantGpsPosition), F("Prefer_indoor_solution", FB, preferIndoorSolution), F("Fuse_gps", FB, fuseGps), F("Use_gps_outside_map", FB, useGpsOutsideMap), F("Use_gps_sigma_filter", FB, useGpsSigmaFilter), F("Sigma_filter_window", FI, sigmaFilterWindow),
    F("Sigma_filter_delta", FD, sigmaFilterDelta), F("Min_num_sats", FI, minNumSats), F("Prior_deviation", FD, priorDeviation), F("Gps_deviation", FD, minGpsDeviation), F("Maximum_to_accept_gps_measurement", FD, maxGpsDeviation), F("Fuse_gps_border_m", FD, fuseGpsBorderM),
    F("Position_old_for_fusing_sec", FD, positionIsTooOldSec), F("Gps_valid_time_window_sec", FD, gpsValidTimeWindowSec), F("Use_calculated_azimuth", FB, useCalculatedAzimuth), F("Device_azimuth_lifetime_seconds", FD, deviceAzimuthLifetimeSeconds), F("Step_multiplier", FD, stepMultiplier),
    F("Has_accelerometer", FB, hasAccelerometer), F("Has_gyroscope", FB, hasGyroscope), F("No_signal_time_threshold", FI, noSignalTimeThreshold), F("No_action_time_threshold", FI, noActionTimeThreshold), F("WiFi_RTT_Offset", FD, wiFiRttOffset)};
  return f;
}
// expected value of every field; second=false: not judged
static std::map<std::string, std::pair<double, bool>> expectedCommon(const J& j) {
  nc::CommonSettings d; std::map<std::string, std::pair<double, bool>> e;
  for (auto& f : fields()) {
    auto& x = e[f.key] = {f.get(d), true}; if (!j.is_object() || !j.count(f.key)) continue; const J& v = j[f.key];
    if (f.kind == FB) { if (v.is_boolean()) x.first = v.get<bool>(); }
    else if (f.kind == FD) { if (v.is_number()) x.first = v.get<double>(); else if (v.is_boolean()) x.second = false; }
    else if (f.kind == FI) { if (isInt(v) && small(v) && v.get<ll>() >= 0) x.first = (double)v.get<ll>(); else if (v.is_number() || v.is_boolean()) x.second = false; }
    else { bool hit = false; if (v.is_string()) for (size_t i = 0; i < f.names.size(); i++) if (v.get<std::string>() == f.names[i]) { x.first = (double)i; hit = true; } if (!hit) x.second = false; }   // an unknown name
  }
  return e;
}

// the map: what the features say, in plain data. Throws when the document is malformed.
struct MapRef { std::map<std::string, WLevel> levels; std::map<std::tuple<std::string, size_t, std::string>, std::pair<ll, int>> heard; };   // heard: how often, and which kind of transmitter
struct Unsure {};
static double number(const J& j) { if (!j.is_number()) { if (j.is_boolean()) throw Unsure(); throw std::runtime_error("number"); } return j.get<double>(); }
static const J& at(const J& j, const char* k) { if (!j.is_object() || !j.count(k)) throw std::runtime_error(k); return j[k]; }
static std::string text(const J& j) { if (!j.is_string()) throw std::runtime_error("string"); return j.get<std::string>(); }
static const J& list(const J& j) { if (j.is_object() || !j.is_structured()) throw Unsure(); return j; }
static std::pair<double, double> point(const J& j) { if (!j.is_array()) { if (j.is_structured()) throw Unsure(); throw std::runtime_error("point"); } for (auto& x : j) number(x); if (j.size() < 2) throw std::runtime_error("point"); return {number(j[1]), number(j[0])}; }
static int txType(const J& j) { static const std::vector<std::string> n{"WIFI", "BEACON", "BLUETOOTH", "UNKNOWN", "EDDYSTONE", "LOCATOR"}; if (!j.is_string()) throw Unsure(); for (size_t i = 0; i < n.size(); i++) if (n[i] == j.get<std::string>()) return (int)i; throw Unsure(); }
static double geoDist(std::pair<double, double> a, std::pair<double, double> b) { double r = M_PI / 180, x = std::pow(std::sin((a.first - b.first) * r / 2), 2) + std::cos(a.first * r) * std::cos(b.first * r) * std::pow(std::sin((a.second - b.second) * r / 2), 2); return 6378000 * 2 * std::atan2(std::sqrt(x), std::sqrt(1 - x)); }
static MapRef readMap(const J& j) {
  MapRef m; const J& fs = list(at(j, "features")); bool unsure = false;
  auto guard = [&](auto f) { try { f(); } catch (const Unsure&) { unsure = true; } };
  for (auto& f : fs) if (text(at(at(f, "properties"), "type")) == "level") guard([&] {
    WLevel L; L.id = text(at(at(f, "properties"), "level")); const J& polys = list(at(at(f, "geometry"), "coordinates"));
    for (auto& p : polys) { list(p); if (p.empty()) throw std::runtime_error("polygon without a ring"); WPoly w; size_t k = 0; for (auto& ring : p) { list(ring); std::vector<std::pair<double, double>> c; for (auto& q : ring) c.push_back(point(q)); if (k++ == 0) w.outer = c; else w.inners.push_back(c); } L.polys.push_back(w); }
    m.levels.insert({L.id, L}); });
  std::set<std::string> graphs; std::map<std::string, WLevel> side;
  for (auto& f : fs) { const J& pr = at(f, "properties"); std::string ty = text(at(pr, "type"));
    if (ty == "graph") guard([&] { std::string lv = text(at(pr, "level")); WLevel g; std::vector<std::pair<double, double>> pts; std::vector<std::pair<int, int>> ed;
      auto vertex = [&](std::pair<double, double> p) { for (size_t i = 0; i < pts.size(); i++) { double d = geoDist(pts[i], p); if (d < .1 && d > .0999) throw Unsure(); if (d < .1) return (int)i; } pts.push_back(p); return (int)pts.size() - 1; };
      for (auto& line : list(at(at(f, "geometry"), "coordinates"))) { list(line); std::vector<std::pair<double, double>> c; for (auto& q : line) c.push_back(point(q)); if (c.size() != 2) throw std::runtime_error("edge"); int a = vertex(c[0]), b = vertex(c[1]); ed.push_back({a, b}); }
      for (size_t i = 0; i < pts.size(); i++) for (size_t k = 0; k < i; k++) { double d = geoDist(pts[i], pts[k]); if (d < .2) throw Unsure(); }   // who merges with whom is not fixed
      if (graphs.insert(lv).second) { side[lv].verts = pts; side[lv].edges = ed; } });
    else if (ty == "transmitter") guard([&] { WTx x{}; std::string lv = text(at(pr, "level")); x.A = -80; x.B = 3; if (pr.count("A")) x.A = number(pr["A"]); if (pr.count("B")) x.B = number(pr["B"]); x.id = text(at(pr, "uuid")); x.type = txType(at(pr, "transmitter_type"));
      const J& c = at(at(f, "geometry"), "coordinates"); auto p = point(c); x.lat = p.first; x.lon = p.second; x.alt = c.size() == 3 ? number(c[2]) : 0; side[lv].tx.push_back(x); });
    else if (ty == "reference_point") guard([&] { WRp r; std::string lv = text(at(pr, "level")); r.id = text(at(pr, "uuid")); auto p = point(at(at(f, "geometry"), "coordinates")); r.lat = p.first; r.lon = p.second;
      std::set<std::string> seen; for (auto& e : list(at(pr, "entries"))) { std::string b = text(at(e, "bssid")); int kind = txType(at(e, "type")); std::map<ll, ll> h; for (auto& v : list(at(e, "value"))) { const J &q = at(v, "rssi"), &n = at(v, "count"); number(q); number(n); if (!isInt(q) || !isInt(n) || !small(q) || !small(n)) throw Unsure(); h.insert({q.get<ll>(), n.get<ll>()}); }
        double s = 0, n = 0; for (auto& q : h) { if (q.second <= 0 || std::llabs(q.first * q.second) > 1000000000ll) throw Unsure(); s += -(double)q.first * (double)q.second; n += (double)q.second; } if (h.empty()) throw Unsure(); if (seen.insert(b).second) { r.mean[b] = s / n; m.heard[{lv, side[lv].rp.size(), b}] = {(ll)n, kind}; } }
      side[lv].rp.push_back(r); });
  }
  if (unsure) throw Unsure();
  for (auto& L : m.levels) if (side.count(L.first)) { L.second.tx = side[L.first].tx; L.second.rp = side[L.first].rp; L.second.verts = side[L.first].verts; L.second.edges = side[L.first].edges; }
  return m;
}
static std::string compareMap(const nc::GeoLevels& got, const MapRef& ref) {
  std::ostringstream o; o.precision(17); if (got.size() != ref.levels.size()) { o << got.size() << " levels, expected " << ref.levels.size(); return o.str(); }
  size_t i = 0; for (auto& e : ref.levels) {
    const nc::GeoLevel& g = *got[i++]; const WLevel& L = e.second; auto in = " on level '" + L.id + "'";
    if (g.id.value != L.id) return "level '" + g.id.value + "', expected '" + L.id + "'";
    if (g.transmitters.size() != L.tx.size()) { o << g.transmitters.size() << " transmitters, expected " << L.tx.size() << in; return o.str(); }
    for (size_t k = 0; k < L.tx.size(); k++) { auto& a = g.transmitters[k]; auto& b = L.tx[k]; if (a.id.value != b.id || a.point.latitude != b.lat || a.point.longitude != b.lon || a.point.altitude != b.alt || a.pathlossModel.A != b.A || a.pathlossModel.B != b.B || (int)a.type != b.type) return "transmitter '" + b.id + "' differs" + in; }
    if (g.referencePoints.size() != L.rp.size()) { o << g.referencePoints.size() << " reference points, expected " << L.rp.size() << in; return o.str(); }
    for (size_t k = 0; k < L.rp.size(); k++) { auto& a = g.referencePoints[k]; auto& b = L.rp[k]; if (a.id.value != b.id || a.point.latitude != b.lat || a.point.longitude != b.lon || a.fingerprints.size() != b.mean.size()) return "reference point '" + b.id + "' differs" + in;
      for (auto& f : a.fingerprints) if (!b.mean.count(f.first.value) || std::fabs(f.second.mean - b.mean.at(f.first.value)) > 1e-9 * (1 + std::fabs(f.second.mean))) return "fingerprint '" + f.first.value + "' of '" + b.id + "' differs" + in; }
    for (size_t k = 0; k < L.rp.size(); k++) for (auto& f : g.referencePoints[k].fingerprints) { auto h = ref.heard.find({L.id, k, f.first.value}); if (h == ref.heard.end() || (ll)f.second.nMeasurements != h->second.first || (int)f.second.type != h->second.second) return "fingerprint '" + f.first.value + "' of '" + L.rp[k].id + "': the number of measurements or the kind differs" + in; }
    std::set<std::pair<std::pair<double, double>, std::pair<double, double>>> ga, gb; auto edge = [](std::pair<double, double> a, std::pair<double, double> b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); };
    std::multiset<std::pair<double, double>> va, vb; for (auto it = g.graph.vertexBegin(); it != g.graph.vertexEnd(); ++it) va.insert({it->point.latitude, it->point.longitude}); for (auto& v : L.verts) vb.insert(v);
    if (va != vb) return "graph vertices differ" + in;
    for (auto it = g.graph.edgesBegin(); it != g.graph.edgesEnd(); ++it) { auto &a = g.graph.getVertex(it->first).point, &b = g.graph.getVertex(it->second).point; ga.insert(edge({a.latitude, a.longitude}, {b.latitude, b.longitude})); }
    for (auto& x : L.edges) gb.insert(edge(L.verts[x.first], L.verts[x.second]));
    if (ga != gb) return "graph edges differ" + in;
    // geometry: the same polygons through the same geometry code
    std::list<nc::Polygon> ps; for (auto& p : L.polys) { nc::Polygon q; for (auto& c : p.outer) boost::geometry::append(q.outer(), nc::Point(c.first, c.second)); q.inners().resize(p.inners.size()); for (size_t h = 0; h < p.inners.size(); h++) for (auto& c : p.inners[h]) boost::geometry::append(q.inners()[h], nc::Point(c.first, c.second)); ps.push_back(q); }
    nc::LevelGeometry want = nc::getGeometry(ps); auto dig = [](const nc::LevelGeometry& x) { Hash64 h; auto& b = x.boundingBox(); for (double d : {b.min_corner().x(), b.min_corner().y(), b.max_corner().x(), b.max_corner().y()}) h.add(d); h.add((ll)x.allowedArea().size()); for (auto& p : x.allowedArea()) { h.add((ll)p.outer().size()); for (auto& q : p.outer()) { h.add(q.x()); h.add(q.y()); } for (auto& in : p.inners()) { h.add((ll)in.size()); for (auto& q : in) { h.add(q.x()); h.add(q.y()); } } } return h.h; };
    if (dig(want) != dig(g.geometry)) return "geometry differs" + in;
  }
  return "";
}

// ================================================= one run ======================================================
// text[0]: the stored bytes. par kind: 0 log, 1 settings, 2 map. Ops 'I': answers of the disk (n bytes, k kind).
// Ops 'M': records whose line (tag) was stored unharmed: the loader must return exactly them for that line.
Result execute(const Trace& t) {
  Result R; Hash64 H, S; int kind = (int)t.par.at("kind"); std::string data = t.text.empty() ? "" : t.text[0];
  auto& d = io::disk; io::store(data, t.par.count("openErrno") ? (int)t.par.at("openErrno") : 0);
  for (auto& o : t.ops) if (o.op == 'I') d.steps.push_back({o.n, (int)o.k});
  std::map<std::string, Msg> exact; for (auto& o : t.ops) if (o.op == 'M') exact[o.tag] = o.m;
  auto after = [&] { R.probes["reads"] += d.reads; R.probes["short reads"] += d.shortReads; R.probes["interrupted reads"] += d.eintr; R.probes["failed reads"] += d.eio; R.calls++; R.hash = H.h; S.add((ll)std::min<ll>(d.shortReads, 20)); S.add((ll)(d.eio > 0)); R.sig = S.h; R.nontrivial = (d.shortReads || d.eintr || d.eio || t.par.at("damaged") != 0 || d.openErrno) && d.opens > 0; };
  S.add((ll)kind);
  if (kind == 0) {
    std::vector<nc::Measurement> got; try { got = GetNavMessages(d.path); } catch (const std::exception& e) { R.fail("log not loaded", e.what(), 0); }
    io::eject(); if (R.violation) { after(); return R; }
    for (auto& g : got) { Msg m = plainMsg(g); H.add(m.ts); H.add((ll)m.kind); H.add((ll)m.type); H.add(m.id); for (double v : m.v) H.add(v); H.add((ll)m.n1); }
    std::string seen = d.openErrno ? "" : d.eio ? data.substr(0, d.pos) : data; bool torn = d.eio > 0;
    // align: every sure line contributes exactly its record or nothing, an unsure one may or may not
    std::set<size_t> pos{0}; size_t a = 0; std::string why; ll n = 0;
    while (a < seen.size()) {
      size_t e = seen.find('\n', a); bool last = e == std::string::npos; if (last) e = seen.size();
      std::string line = seen.substr(a, e - a); a = e + 1; n++;
      Rec r; auto x = exact.find(line); if (x != exact.end()) { r.good = true; r.m = x->second; R.probes["intact record"]++; } else { r = readLine(line); R.probes[r.good ? "changed record loaded" : "damaged record"]++; }
      S.add((ll)(r.good * 2 + r.sure)); S.add((ll)r.m.kind); S.add((ll)r.m.type); R.msgs++;
      { Hash64 q; q.add((ll)r.good); q.add((ll)r.m.kind); q.add((ll)r.m.type); q.add((ll)(x != exact.end())); R.states.insert(q.h); }
      std::set<size_t> np; bool mayDrop = !r.good || !r.sure || (torn && last);
      for (size_t p : pos) { if (mayDrop) np.insert(p); if ((r.good || !r.sure) && p < got.size() && (eq(plainMsg(got[p]), r.m) || !r.sure)) np.insert(p + 1); }
      if (np.empty()) { size_t p = *pos.begin(); R.fail("record", "line " + std::to_string(n) + " '" + line.substr(0, 160) + "': " + (p < got.size() ? "loaded " + show(plainMsg(got[p])) : std::string("nothing loaded")) + ", expected " + (r.good ? show(r.m) : "no record"), n); break; }
      pos = np;
    }
    if (!R.violation && !pos.count(got.size())) R.fail("extra record", std::to_string(got.size()) + " records loaded, the file holds " + std::to_string(*pos.rbegin()), n);
  } else if (kind == 1) {
    int err = -12345; nc::NavigationSettings got; bool threw = false; std::string what; try { got = CreateSettingsFromJson(d.path, err); } catch (const std::exception& e) { threw = true; what = e.what(); }
    io::eject(); J j = d.openErrno || d.eio ? J() : J::parse(data, nullptr, false);
    if (!threw) for (auto& f : fields()) H.add(f.get(got.commonSettings)); H.add((ll)threw);
    if (d.openErrno) { R.probes["open failed"]++; if (threw || err != 25) R.fail("unreadable settings", threw ? "exception " + what : "error code " + std::to_string(err), 0); }
    else if (d.eio) { if (!threw && err == 0) R.fail("torn settings accepted", "the file could not be read to its end", 0); }
    else if (j.is_discarded()) { R.probes["malformed document"]++; if (!threw && err == 0) R.fail("malformed settings accepted", data.substr(0, 200), 0); }
    else {
      bool ok = true; try { const J& cs = at(j, "common_settings"); if (!cs.is_array() && !cs.is_null()) ok = false; const J& ls = at(j, "level_settings"); if (!ls.is_array()) ok = false; else for (auto& l : ls) { text(at(l, "level")); const J& s = at(l, "settings"); if (!s.is_array() || s.empty()) ok = false; } } catch (const std::exception&) { ok = false; }
      if (!ok) { R.probes["malformed document"]++; /* reported or default: only crashes are findings */ if (!threw && err == 0) R.probes["malformed document loaded"]++; }
      else if (threw || err) R.fail("settings not loaded", threw ? what : "error code " + std::to_string(err), 0);
      else {
        R.probes["document loaded"]++; const J& cs = j["common_settings"]; auto e = expectedCommon(cs.empty() ? J::object() : cs[0]);
        for (auto& f : fields()) { auto& x = e[f.key]; S.add((ll)x.second); if (x.second && !eqD(x.first, f.get(got.commonSettings))) { R.fail("setting", std::string(f.key) + " is " + dbl(f.get(got.commonSettings)) + ", the file says " + dbl(x.first), 0); break; } R.msgs++; }
        std::map<std::string, std::pair<double, double>> want; for (auto& l : j["level_settings"]) { auto& w = want[l["level"].get<std::string>()]; w = {-82, 3}; const J& s = l["settings"][0]; if (s.is_object()) { if (s.count("A") && s["A"].is_number()) w.first = s["A"].get<double>(); if (s.count("B") && s["B"].is_number()) w.second = s["B"].get<double>(); if ((s.count("A") && s["A"].is_boolean()) || (s.count("B") && s["B"].is_boolean())) w.first = NAN; } }
        if (!R.violation) { if (want.size() != got.levelsSettings.size()) R.fail("level settings", std::to_string(got.levelsSettings.size()) + " levels, the file says " + std::to_string(want.size()), 0); else for (auto& w : want) { auto it = got.levelsSettings.find(nc::LevelId(w.first)); if (it == got.levelsSettings.end()) { R.fail("level settings", "level '" + w.first + "' missing", 0); break; } if (w.second.first == w.second.first && (it->second.normalModeA != w.second.first || it->second.normalModeB != w.second.second)) { R.fail("level settings", "level '" + w.first + "' has A " + dbl(it->second.normalModeA) + " B " + dbl(it->second.normalModeB), 0); break; } } }
      }
    }
  } else {
    int err = -12345; nc::GeoLevels got; bool threw = false; std::string what; try { got = ParseGeojson(d.path, err); } catch (const std::exception& e) { threw = true; what = e.what(); }
    io::eject(); H.add((ll)threw); H.add((ll)got.size()); for (auto& g : got) { H.add(g->id.value); H.add((ll)g->transmitters.size()); }
    J j = d.openErrno || d.eio ? J() : J::parse(data, nullptr, false);
    if (d.openErrno) { R.probes["open failed"]++; if (threw || err != 25 || !got.empty()) R.fail("unreadable map", threw ? "exception " + what : "error code " + std::to_string(err), 0); }
    else if (d.eio) { if (!threw && err == 0) R.fail("torn map accepted", "the file could not be read to its end", 0); }
    else if (j.is_discarded()) { R.probes["malformed document"]++; if (!threw && err == 0) R.fail("malformed map accepted", data.substr(0, 200), 0); }
    else {
      MapRef ref; bool bad = false, unsure = false; try { ref = readMap(j); } catch (const Unsure&) { unsure = true; } catch (const std::exception&) { bad = true; }
      if (unsure) R.probes["document not judged"]++;
      else if (bad) { R.probes["malformed document"]++; if (!threw && err == 0) { R.probes["malformed document loaded"]++; R.fail("malformed map accepted", data.substr(0, 200), 0); } }
      else if (threw || err) R.fail("map not loaded", threw ? what : "error code " + std::to_string(err), 0);
      else { R.probes["document loaded"]++; std::string w = compareMap(got, ref); if (!w.empty()) R.fail("map", w, 0); for (auto& L : ref.levels) { R.msgs += L.second.tx.size() + L.second.rp.size() + L.second.edges.size(); S.add((ll)L.second.tx.size()); S.add((ll)L.second.rp.size()); } }
    }
  }
  { Hash64 q; q.add((ll)kind); q.add((ll)d.openErrno); q.add((ll)(d.eio > 0)); q.add((ll)(d.eintr > 0)); q.add((ll)std::min<ll>(d.shortReads, 8)); q.add((ll)R.probes.count("malformed document")); R.states.insert(q.h); }
  after(); return R;
}

// ================================================= generation ===================================================
static std::string num(Rng& r, double v) { if (r.p(.2) && std::fabs(v) < 1e9 && v == std::floor(v)) { return std::to_string((ll)v); } return dbl(v); }
static std::string jstr(const std::string& s) { return J(s).dump(-1, ' ', false, J::error_handler_t::replace); }
static std::string object(Rng& r, std::vector<std::pair<std::string, std::string>> kv) {
  if (r.p(.3)) for (size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[(size_t)r.i(0, (ll)i - 1)]);
  std::string sp = r.p(.5) ? " " : ""; std::string o = "{"; for (size_t i = 0; i < kv.size(); i++) { if (i) o += "," + sp; o += jstr(kv[i].first) + ":" + sp + kv[i].second; } return o + "}";
}
static std::string ident(Rng& r) { if (r.p(.05)) return ""; if (r.p(.1)) return "(\"\\\u00e4\u2603," + std::to_string(r.i(0, 9)) + ")"; char b[64]; snprintf(b, sizeof b, "%02llX:%02llX:%02llX", r.i(0, 255), r.i(0, 255), r.i(0, 3)); return b; }
Trace generate(const std::string& profile, uint64_t seed, ll idx) {
  Trace T; T.profile = profile; T.seed = seed; T.index = idx; Rng r(seed * 1000003ull + 17, (uint64_t)idx * 7919 + 21); int kind = (int)r.i(0, 2); T.par["kind"] = kind; std::string& s = (T.text.push_back(""), T.text[0]); T.settings.push_back({});
  auto fault = [&](const std::string& k, ll n = 1) { T.faults[k] += n; };
  if (kind == 0) {
    ll n = r.p(.1) ? r.i(0, 3) : r.p(.15) ? r.i(60, 250) : r.i(3, 60), ts = r.i(0, 1) ? 1500000000000ll + r.i(0, 1000000000) : r.i(0, 100000); bool crlf = r.p(.15), blank = r.p(.2); double pTorn = r.p(.5) ? r.uni(.02, .3) : 0, pUnk = r.p(.4) ? .1 : 0; std::vector<std::pair<std::string, Msg>> good;
    double pDup = r.p(.3) ? r.uni(.02, .3) : 0, pBack = r.p(.3) ? r.uni(.02, .3) : 0; std::vector<std::pair<std::string, Msg>> written; double pLong = r.p(.25) ? r.uni(.02, .2) : 0; auto filler = [&](ll n) { std::string f; while ((ll)f.size() < n) f += r.p(.5) ? std::string((size_t)r.i(1, 300), (char)r.i(97, 122)) : std::to_string(r.next()); return f; };
    for (ll i = 0; i < n; i++) {
      ts += r.i(0, 300); if (pBack > 0 && r.p(pBack)) { ts = std::max(0ll, ts - r.i(1, r.p(.5) ? 400 : 100000)); fault("record out of order"); } Msg m; m.ts = ts; std::string line; double u = r.u();
      if (u < .5) { static const int code[]{201, 203, 202, 204, 205}; m.kind = MK_RADIO; m.type = (int)r.i(0, 4); m.id = ident(r); std::vector<std::pair<std::string, std::string>> kv{{"timestamp", std::to_string(m.ts)}, {"type", std::to_string(code[m.type])}, {"bssid", jstr(m.id)}};
        if (m.type != RT_RTT || r.p(.5)) { m.v[0] = r.p(.5) ? -(double)r.i(20, 100) : r.uni(-100, -10); kv.push_back({"rssi", num(r, m.v[0])}); } if (m.type == RT_RTT || r.p(.3)) { m.v[2] = r.uni(0, 50); kv.push_back({"distance", num(r, m.v[2])}); } if (r.p(.1)) kv.push_back({"comment", "[1,{\"a\":null}]"}); if (pLong > 0 && r.p(pLong)) kv.push_back({"note", jstr(filler(r.i(500, r.p(.3) ? 70000 : 9000)))}); line = object(r, kv); }
      else if (u < .9) { static const int code[]{101, 103, 102, 104, 106, 105}; m.kind = MK_SENSOR; m.type = (int)r.i(0, 5); for (int k = 0; k < 3; k++) m.v[k] = r.p(.1) ? (double)r.i(-5, 5) : r.p(.05) ? r.uni(-1, 1) * std::pow(10, (double)r.i(-12, 12)) : r.uni(-180, 180);
        line = object(r, {{"timestamp", std::to_string(m.ts)}, {"type", std::to_string(code[m.type])}, {"values", "[" + num(r, m.v[0]) + "," + num(r, m.v[1]) + "," + num(r, m.v[2]) + "]"}}); }
      else { m.kind = MK_NMEA; m.n1 = (int)r.i(0, 5); m.n2 = (int)r.i(0, 40); line = object(r, {{"timestamp", std::to_string(m.ts)}, {"type", "300"}, {"sentence_number", std::to_string(m.n1)}, {"num_sats", std::to_string(m.n2)}}); }
      if (pDup > 0 && !written.empty() && r.p(pDup)) { auto& w = r.p(.7) ? written.back() : r.pick(written); line = w.first; m = w.second; fault("record written twice"); }
      written.push_back({line, m});
      if (pTorn > 0 && r.p(pTorn) && !line.empty()) { size_t cut = (size_t)r.i(1, (ll)line.size() - 1); line = r.p(.5) ? line.substr(0, cut) : line.substr(cut); fault("torn record"); }
      else if (pUnk > 0 && r.p(pUnk)) { static const std::vector<std::string> odd{"{\"timestamp\":5,\"type\":999,\"values\":[1,2,3]}", "{\"timestamp\":5,\"type\":101,\"values\":[1,2]}", "{\"timestamp\":5,\"type\":101,\"values\":[1,2,3,4]}", "{\"timestamp\":5,\"type\":104,\"values\":[]}", "{\"timestamp\":\"5\",\"type\":101,\"values\":[1,2,3]}", "{\"type\":201,\"bssid\":\"a\",\"rssi\":-5}", "{\"timestamp\":5,\"type\":201,\"rssi\":-5}", "{\"timestamp\":5,\"type\":201,\"bssid\":7,\"rssi\":-5}", "{\"timestamp\":5,\"type\":300,\"num_sats\":5}", "[]", "null", "7", "\"x\"", "{}", "{\"timestamp\":5,\"type\":106,\"values\":[null,1,2]}", "{\"timestamp\":5,\"type\":203,\"bssid\":\"a\",\"rssi\":\"-5\"}", "{\"timestamp\":5}", "}{", "{\"timestamp\":5,\"type\":0,\"values\":[1,2,3]}", "{\"timestamp\":5,\"type\":206,\"bssid\":\"a\",\"rssi\":-5}"}; line = r.pick(odd); fault("malformed record"); }
      else if (pLong > 0 && r.p(pLong)) { line = filler(r.i(500, r.p(.3) ? 70000 : 9000)) + (r.p(.5) ? line : ""); fault("records run together"); }   // newlines lost: one long line
      else good.push_back({line + (crlf ? "\r" : ""), m});
      s += line; if (crlf) s += "\r"; if (i + 1 < n || r.p(.8)) s += "\n"; if (blank && r.p(.1)) s += r.p(.5) ? "\n" : "   \n";
    }
    if (crlf && !s.empty() && s.back() != '\n') {}
    for (auto& g : good) { Op o; o.op = 'M'; o.m = g.second; o.tag = g.first; T.ops.push_back(o); }
  } else if (kind == 1) {
    std::vector<std::pair<std::string, std::string>> cs; double pUse = r.p(.2) ? 1 : r.uni(.05, .9), pBad = r.p(.5) ? r.uni(.02, .3) : 0;
    for (auto& f : fields()) if (r.p(pUse)) { std::string v = f.kind == FB ? (r.p(.5) ? "true" : "false") : f.kind == FI ? std::to_string(r.i(0, 2000)) : f.kind == FD ? num(r, r.p(.3) ? (double)r.i(-100, 100) : r.uni(-100, 100)) : jstr(f.names[(size_t)r.i(0, (ll)f.names.size() - 1)]);
      if (pBad > 0 && r.p(pBad)) { static const std::vector<std::string> odd{"null", "\"text\"", "[]", "{}", "[1]", "{\"a\":1}", "\"\""}; v = r.pick(odd); if (f.kind == FE) v = "\"KNN\""; fault("malformed setting"); } cs.push_back({f.key, v}); }
    if (r.p(.3)) cs.push_back({"Unknown_setting", "5"}); if (r.p(.2)) cs.push_back({"unknown", "{\"x\":[1,2]}"});
    std::string ls = "["; ll nl = r.i(0, 4); for (ll i = 0; i < nl; i++) { std::vector<std::pair<std::string, std::string>> kv; if (r.p(.9)) kv.push_back({"A", num(r, r.uni(-95, -60))}); if (r.p(.9)) kv.push_back({"B", num(r, r.uni(1, 5))}); if (pBad > 0 && r.p(pBad)) { kv.push_back({"C", "null"}); if (kv.size() > 1) { kv[0].second = r.p(.5) ? "\"-80\"" : "null"; fault("malformed setting"); } } if (i) ls += ","; ls += object(r, {{"level", jstr("L" + std::to_string(r.i(0, 5)))}, {"settings", r.p(.04) && pBad > 0 ? std::string("[]") : "[" + object(r, kv) + (r.p(.1) ? ",{\"A\":1}" : "") + "]"}}); } ls += "]";
    s = object(r, {{"level_settings", ls}, {"common_settings", r.p(.05) ? std::string("[]") : "[" + object(r, cs) + (r.p(.1) ? ",{\"Use_gps\":true}" : "") + "]"}}); if (r.p(.3)) s += "\n";
  } else {
    Trace W; { gen::Gen g(r.next(), 5); auto& k = g.k; k.minLevels = 1; k.maxLevels = 4; k.minTx = 0; k.maxTx = r.p(.2) ? 20 : 6; k.minRp = 0; k.maxRp = 8; k.graph = r.p(.7); k.area = .8; k.sharedTx = .2; g.world(); W = g.t; }
    std::vector<std::string> fs; double pBad = r.p(.35) ? r.uni(.01, .1) : 0; static const char* names[]{"WIFI", "BEACON", "BLUETOOTH", "UNKNOWN", "EDDYSTONE", "LOCATOR"};
    auto pt = [&](double lat, double lon) { return "[" + num(r, lon) + "," + num(r, lat) + "]"; };
    auto feat = [&](std::vector<std::pair<std::string, std::string>> pr, const std::string& gt, std::string co) { if (pBad > 0 && r.p(pBad)) { fault("malformed feature"); int w = (int)r.i(0, 5); if (w == 0) pr.pop_back(); else if (w == 1) co = "[]"; else if (w == 2) co = "[[]]"; else if (w == 3) co = "null"; else if (w == 4) co = "[[[[]]]]"; else pr[0].second = "null"; } fs.push_back(object(r, {{"type", "\"Feature\""}, {"properties", object(r, pr)}, {"geometry", object(r, {{"type", jstr(gt)}, {"coordinates", co}})}})); };
    for (auto& L : W.world) {
      std::string co = "["; for (size_t p = 0; p < L.polys.size(); p++) { auto ring = [&](const std::vector<std::pair<double, double>>& c) { std::string o = "["; for (size_t i = 0; i < c.size(); i++) o += (i ? "," : "") + pt(c[i].first, c[i].second); return o + "]"; }; co += (p ? ",[" : "[") + ring(L.polys[p].outer); for (auto& h : L.polys[p].inners) co += "," + ring(h); co += "]"; } co += "]";
      feat({{"level", jstr(L.id)}, {"type", "\"level\""}}, "MultiPolygon", co);
      for (auto& x : L.tx) { std::vector<std::pair<std::string, std::string>> pr{{"level", jstr(L.id)}, {"type", "\"transmitter\""}, {"uuid", jstr(x.id)}, {"transmitter_type", jstr(names[x.type])}}; if (r.p(.7)) pr.push_back({"A", num(r, x.A)}); if (r.p(.7)) pr.push_back({"B", num(r, x.B)}); feat(pr, "Point", r.p(.5) ? pt(x.lat, x.lon) : "[" + num(r, x.lon) + "," + num(r, x.lat) + "," + num(r, x.alt) + "]"); }
      for (auto& q : L.rp) { std::string en = "["; bool first = true; for (auto& m : q.mean) { std::string v = "["; ll nv = r.i(1, 4), base = (ll)std::lround(-m.second); for (ll i = 0; i < nv; i++) v += std::string(i ? "," : "") + "{\"rssi\":" + std::to_string(base + (r.p(.1) ? 0 : i)) + ",\"count\":" + std::to_string(r.i(1, 9)) + "}"; en += (first ? "" : ",") + object(r, {{"bssid", jstr(m.first)}, {"type", jstr(names[r.i(0, 2)])}, {"value", v + "]"}}); first = false; } feat({{"level", jstr(L.id)}, {"type", "\"reference_point\""}, {"uuid", jstr(q.id)}, {"entries", en + "]"}}, "Point", pt(q.lat, q.lon)); }
      if (!L.edges.empty()) { std::string e = "[";
        // a point drawn twice is rarely drawn twice at the same place: what is within a decimetre of a vertex is that vertex, what is farther away is not
        double slip = r.p(.4) ? r.uni(.005, .0995) : 0; std::set<std::pair<double, double>> drawn;
        auto near = [&](std::pair<double, double> q, double d) { double th = r.uni(0, 2 * M_PI), m = 180 / M_PI / 6378000; return std::make_pair(q.first + d * std::cos(th) * m, q.second + d * std::sin(th) * m / std::max(.01, std::cos(q.first * M_PI / 180))); };
        auto draw = [&](std::pair<double, double> q) { return slip > 0 && !drawn.insert(q).second ? near(q, r.p(.5) ? slip : r.uni(0, slip)) : q; };
        for (size_t i = 0; i < L.edges.size(); i++) { auto a = L.verts[L.edges[i].first], b = L.verts[L.edges[i].second]; if (r.p(.5)) std::swap(a, b); a = draw(a); b = slip > 0 && r.p(.1) ? near(a, r.uni(.21, .5)) : draw(b); e += (i ? ",[" : "[") + pt(a.first, a.second) + "," + pt(b.first, b.second) + (pBad > 0 && r.p(.02) ? "," + pt(b.first, a.second) : "") + "]"; } feat({{"level", jstr(L.id)}, {"type", "\"graph\""}}, "MultiLineString", e + "]"); }
    }
    if (r.p(.2)) feat({{"level", "\"nowhere\""}, {"type", "\"transmitter\""}, {"uuid", "\"x\""}, {"transmitter_type", "\"WIFI\""}}, "Point", "[1,2]"); if (r.p(.2)) fs.push_back("{\"type\":\"Feature\",\"properties\":{\"type\":\"other\"},\"geometry\":null}"); if (r.p(.1) && !fs.empty()) fs.push_back(fs[(size_t)r.i(0, (ll)fs.size() - 1)]);
    if (r.p(.5)) for (size_t i = fs.size(); i > 1; i--) std::swap(fs[i - 1], fs[(size_t)r.i(0, (ll)i - 1)]);
    s = "{\"type\":\"FeatureCollection\",\"features\":["; for (size_t i = 0; i < fs.size(); i++) s += (i ? r.p(.5) ? ",\n" : "," : "") + fs[i]; s += "]}";
  }
  // what the storage did to the bytes
  bool damaged = !T.faults.empty(); double u = r.u(); if (r.p(kind == 0 ? .6 : .35) && !s.empty()) {
    ll n = r.p(.6) ? 1 : r.i(2, 6);
    for (ll i = 0; i < n; i++) { size_t p = (size_t)r.i(0, (ll)s.size() - 1), w = std::min<size_t>(s.size() - p, (size_t)r.i(1, r.p(.5) ? 8 : 200)); u = r.u();
      if (u < .25) { s.resize(p); fault("file truncated"); if (s.empty()) break; } else if (u < .5) { s[p] = (char)(s[p] ^ (1 << r.i(0, 7))); fault("bit flipped"); } else if (u < .6) { s[p] = (char)r.i(0, 255); fault("byte replaced"); } else if (u < .75) { for (size_t k = p; k < p + w; k++) s[k] = 0; fault("block zeroed"); } else if (u < .85) { s.erase(p, w); fault("block lost"); if (s.empty()) break; } else if (u < .95) { s.insert(p, s.substr(p, w)); fault("block duplicated"); } else { size_t q = (size_t)r.i(0, (ll)s.size() - 1); s.replace(p, w, s.substr(q, w)); fault("block misdirected"); } }
    damaged = true;
  }
  T.par["damaged"] = damaged;
  if (r.p(.04)) { static const std::vector<double> e{ENOENT, EACCES, EMFILE, EIO}; T.par["openErrno"] = r.pick(e); fault("open fails"); }
  int mode = (int)r.i(0, 3); ll left = (ll)s.size(); double pE = r.p(.4) ? r.uni(.02, .4) : 0; ll eioAt = r.p(.12) ? r.i(0, left) : -1; ll cap = mode == 1 ? r.i(1, 4) : mode == 2 ? r.i(5, 100) : r.i(100, 9000); if (mode) cap = std::max<ll>(cap, left / 3000); if (!mode && eioAt >= 0) cap = 8191;
  if (mode || eioAt >= 0) { ll at = 0; while (at < left || (eioAt >= at && eioAt <= at)) { if (eioAt >= 0 && at >= eioAt) { Op o; o.op = 'I'; o.k = 2; T.ops.push_back(o); fault("read error"); break; } if (pE > 0 && r.p(pE)) { Op o; o.op = 'I'; o.k = 1; T.ops.push_back(o); fault("interrupted read"); } Op o; o.op = 'I'; o.n = r.i(1, cap); if (eioAt >= 0) o.n = std::min(o.n, std::max<ll>(1, eioAt - at)); at += o.n; T.ops.push_back(o); fault("short read"); } }
  T.simMs = 0; return T;
}
int main(int argc, char** argv) { return proto::mainLoop(argc, argv); }
