// Adapter to the real navigation core: plain simulator data in, plain outputs back.
#pragma once
#include <memory>
#include <navigine/navigation-core/navigation_client.h>
#include <navigine/navigation-core/barriers_geometry_builder.h>
#include "../alloc.hpp"
#include "model.hpp"

namespace real {
namespace nc = navigine::navigation_core;

struct Out { int status; std::string lvl; double lat, lon, alt, r, ori; int prov; int steps; double stepLen, heading; double inX, inY, outX, outY; };
inline void hashOut(Hash64& h, const Out& o, bool sensible = true) {
  h.add((ll)o.status); h.add(o.lvl); h.add(o.lat); h.add(o.lon); h.add(o.alt); h.add(o.r); h.add(o.ori); h.add((ll)o.prov);
  h.add((ll)o.steps); h.add(o.stepLen); h.add(o.heading); h.add(o.inX); h.add(o.inY); h.add(o.outX); h.add(o.outY); (void)sensible;
}
inline bool same(const Out& a, const Out& b) { Hash64 x, y; hashOut(x, a); hashOut(y, b); return x.h == y.h; }
inline std::string str(const Out& o) {
  char b[400]; snprintf(b, sizeof b, "status=%d level=%s lat=%.9f lon=%.9f r=%.6g ori=%.6g prov=%d steps=%d stepLen=%.6g in=(%.4f,%.4f) out=(%.4f,%.4f) alt=%.9g", o.status, o.lvl.c_str(), o.lat, o.lon, o.r, o.ori, o.prov, o.steps, o.stepLen, o.inX, o.inY, o.outX, o.outY, o.alt); return b;
}

template <class T> inline void put(T& f, double v) { f = static_cast<T>(static_cast<long long>(v)); }
inline void put(double& f, double v) { f = v; }
inline void put(bool& f, double v) { f = v != 0; }
inline nc::NavigationSettings settings(const std::map<std::string, double>& m, const std::vector<WLevel>& world) {
  nc::NavigationSettings s;
  for (auto& p : m) {
#define X(n, d) if (p.first == #n) put(s.commonSettings.n, p.second);
    SIM_SETTINGS(X)
#undef X
  }
  for (auto& L : world) { nc::LevelSettings x; x.normalModeA = L.A; x.normalModeB = L.B; s.levelsSettings[nc::LevelId(L.id)] = x; }
  return s;
}
inline nc::GeoLevel geoLevel(const WLevel& L) {
  nc::GeoLevel g; g.id = nc::LevelId(L.id); g.altitude = L.altitude;
  auto power = [&](const WTx& x) { return nc::PathlossModel{x.A, x.B, x.power}; };
  for (auto& x : L.tx) g.transmitters.emplace_back(nc::TransmitterId(x.id), nc::GeoPoint3D(x.lat, x.lon, x.alt), power(x), static_cast<nc::TransmitterType>(x.type));
  for (auto& r : L.rp) {
    std::map<nc::TransmitterId, nc::SignalStatistics> f;
    for (auto& m : r.mean) { int ty = 0; for (auto& x : L.tx) if (x.id == m.first) ty = x.type; f[nc::TransmitterId(m.first)] = nc::SignalStatistics{static_cast<nc::TransmitterType>(ty), m.second, 1.0, 5}; }
    g.referencePoints.emplace_back(nc::ReferencePointId(r.id), nc::GeoPoint(r.lat, r.lon), f);
  }
  std::list<nc::Polygon> ps;
  for (auto& p : L.polys) {
    nc::Polygon q; for (auto& c : p.outer) boost::geometry::append(q.outer(), nc::Point(c.first, c.second));
    for (auto& h : p.inners) { q.inners().push_back({}); for (auto& c : h) boost::geometry::append(q.inners().back(), nc::Point(c.first, c.second)); }
    boost::geometry::correct(q); ps.push_back(q);
  }
  g.geometry = nc::getGeometry(ps);
  for (auto& v : L.verts) g.graph.addVertex(nc::GeoPoint(v.first, v.second));
  for (auto& e : L.edges) g.graph.addEdge(e.first, e.second);
  return g;
}
inline std::shared_ptr<nc::LevelCollector> buildMap(const std::vector<WLevel>& w) {
  auto m = nc::createLevelCollector(); for (auto& L : w) m->addGeoLevel(geoLevel(L)); return m;
}
inline nc::Measurement msr(const Msg& m) {
  nc::Measurement r; r.ts = m.ts;
  if (m.kind == MK_RADIO) { nc::RadioMeasurementData d; d.type = static_cast<nc::RadioMeasurementData::Type>(m.type); d.id = nc::TransmitterId(m.id); d.rssi = m.v[0]; d.power = m.v[1]; d.distance = m.v[2]; d.stddev = m.v[3]; r.data = d; }
  else if (m.kind == MK_SENSOR) { nc::SensorMeasurementData d; d.type = static_cast<nc::SensorMeasurementData::Type>(m.type); d.values = nc::Vector3d(m.v[0], m.v[1], m.v[2]); r.data = d; }
  else { nc::NmeaMeasurementData d; d.sentenceNumber = m.n1; d.satellitesNumber = m.n2; r.data = d; }
  return r;
}
inline std::vector<Out> plain(const std::vector<nc::NavigationOutput>& v, const std::vector<nc::NavigationState>& s) {
  std::vector<Out> o;
  for (size_t i = 0; i < v.size(); i++) {
    Out x{}; x.status = v[i].status; x.lvl = v[i].posLevel.value; x.lat = v[i].posLatitude; x.lon = v[i].posLongitude; x.alt = v[i].posAltitude; x.r = v[i].posR; x.ori = v[i].posOrientation; x.prov = (int)v[i].provider;
    if (i < s.size()) { x.steps = s[i].getStepCounter(); x.stepLen = s[i].getStepLen(); x.heading = s[i].getHeading(); x.inX = s[i].getIndoorPosition().x; x.inY = s[i].getIndoorPosition().y; x.outX = s[i].getOutdoorPosition().x; x.outY = s[i].getOutdoorPosition().y; }
    o.push_back(x);
  }
  return o;
}
// digest of everything a client could change in the shared map
inline uint64_t digest(const nc::LevelCollector& m, const std::vector<WLevel>& world) {
  Hash64 h;
  h.add((ll)m.levels().size());
  for (const nc::Level& L : m.levels()) {
    h.add(L.id().value); h.add(L.bindingPoint().latitude); h.add(L.bindingPoint().longitude);
    for (auto& w : world) for (auto& x : w.tx) { bool c = L.containsTransmitter(nc::TransmitterId(x.id)); h.add((ll)c); if (c) { auto& t = L.transmitter(nc::TransmitterId(x.id)); h.add(t.point.x); h.add(t.point.y); h.add(t.point.z); h.add(t.pathlossModel.A); h.add(t.pathlossModel.B); h.add(t.pathlossModel.power); h.add((ll)t.type); } }
    for (auto& r : L.radiomap().referencePoints()) { h.add(r.id.value); h.add(r.point.x); h.add(r.point.y); for (auto& f : r.fingerprints) { h.add(f.first.value); h.add((ll)f.second.type); h.add(f.second.mean); h.add(f.second.variance); h.add((ll)f.second.nMeasurements); } h.add((ll)L.radiomap().hasReferencePoint(r.id)); if (L.radiomap().hasReferencePoint(r.id)) h.add(L.radiomap().getReferencePoint(r.id).point.x); }
    for (auto it = L.graph().vertexBegin(); it != L.graph().vertexEnd(); ++it) { h.add((ll)it->id); h.add(it->point.x); h.add(it->point.y); }
    for (auto it = L.graph().edgesBegin(); it != L.graph().edgesEnd(); ++it) { h.add((ll)it->first); h.add((ll)it->second); }
    auto& b = L.geometry().boundingBox(); h.add(b.min_corner().x()); h.add(b.min_corner().y()); h.add(b.max_corner().x()); h.add(b.max_corner().y());
    for (auto& p : L.geometry().allowedArea()) { for (auto& q : p.outer()) { h.add(q.x()); h.add(q.y()); } for (auto& in : p.inners()) for (auto& q : in) { h.add(q.x()); h.add(q.y()); } }
  }
  for (auto& w : world) { h.add((ll)m.hasLevel(nc::LevelId(w.id))); if (m.hasLevel(nc::LevelId(w.id))) h.add(m.level(nc::LevelId(w.id)).id().value); for (auto& x : w.tx) { auto f = m.findLevelByTransmitterId(nc::TransmitterId(x.id)); h.add(f ? f->value : std::string("-")); } }
  return h.h;
}
// one client; `batch` is what the app collected since the last call
struct Client {
  std::shared_ptr<nc::NavigationClient> c;
  void create(const std::shared_ptr<nc::LevelCollector>& m, const nc::NavigationSettings& s) { hook::Arm a; c = nc::createNavigationClient(m, s); }
  void destroy() { hook::Arm a; c.reset(); }
  std::vector<Out> call(const std::vector<Msg>& b, std::vector<Out>* extra = nullptr, size_t* nStates = nullptr) {
    std::vector<nc::Measurement> v; v.reserve(b.size()); for (auto& m : b) v.push_back(msr(m));
    std::vector<nc::NavigationOutput> o; std::vector<nc::NavigationState> s; std::vector<Out> r; (void)extra;
    { hook::Arm a; o = c->navigate(v); }
    { hook::State keep = hook::st; s = c->getStates(); hook::st = keep; }
    if (nStates) *nStates = s.size();
    r = plain(o, s);
    { hook::Arm a; std::vector<nc::NavigationOutput>().swap(o); }
    return r;
  }
};
} // namespace real
