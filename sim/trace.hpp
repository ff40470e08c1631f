// Trace = one complete simulated execution as plain data: the world, the settings of every client and
// every step with every fault already resolved. execute(trace) is a pure function of it.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

typedef long long ll;

struct Rng {
  uint64_t s[4];
  static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed, uint64_t stream = 0) { uint64_t x = seed * 0x2545F4914F6CDD1Dull + stream * 0x9E3779B97F4A7C15ull + 12345; for (auto& v : s) v = splitmix(x); }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r;
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  ll i(ll a, ll b) { return a + (ll)(next() % (uint64_t)(b - a + 1)); }   // inclusive
  bool p(double x) { return u() < x; }
  double gauss() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)i(0, (ll)v.size() - 1)]; }
};

struct Hash64 {
  uint64_t h = 1469598103934665603ull;
  void bytes(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } }
  void add(ll v) { bytes(&v, sizeof v); }
  void add(double v) { if (v == 0) v = 0; bytes(&v, sizeof v); }
  void add(const std::string& s) { bytes(s.data(), s.size()); add((ll)s.size()); }
};

// ---- world -----------------------------------------------------------------------------------------------------
enum TxType { TX_WIFI, TX_BEACON, TX_BLUETOOTH, TX_UNKNOWN, TX_EDDYSTONE, TX_LOCATOR };
struct WTx { std::string id; double lat, lon, alt, A, B, power; int type; };
struct WRp { std::string id; double lat, lon; std::map<std::string, double> mean; };
struct WPoly { std::vector<std::pair<double, double>> outer; std::vector<std::vector<std::pair<double, double>>> inners; };
struct WLevel {
  std::string id; double altitude = 0, A = -82, B = 3;
  std::vector<WTx> tx; std::vector<WRp> rp; std::vector<WPoly> polys;
  std::vector<std::pair<double, double>> verts; std::vector<std::pair<int, int>> edges;
};

// ---- steps -----------------------------------------------------------------------------------------------------
enum MsgKind { MK_RADIO, MK_SENSOR, MK_NMEA };
enum RadioType { RT_WIFI, RT_BEACON, RT_BLUETOOTH, RT_EDDYSTONE, RT_RTT };
enum SensorType { ST_ACC, ST_MAG, ST_GYRO, ST_BARO, ST_LOC, ST_ORI };
struct Msg {
  ll ts = 0; int kind = MK_RADIO; int type = 0; std::string id;
  double v[4] = {0, 0, 0, 0};     // radio: rssi power distance stddev; sensor: x y z
  int n1 = 0, n2 = 0;             // nmea: sentence number, satellites
};
// M: deliver a message into the batch of client c; N: navigate(batch of c); R: crash and restart client c;
// A: the n-th allocation of the next call of client c fails (k allocations in a row); X: marker (n = meaning, see profile)
struct Op { char op = 'M'; int c = 0; Msg m; ll n = 0; ll k = 0; std::string tag; };

struct Trace {
  std::string profile; uint64_t seed = 0; ll index = 0;
  std::vector<WLevel> world;
  std::vector<std::map<std::string, double>> settings;   // per client
  std::map<std::string, double> par;                      // profile parameters
  std::vector<std::string> text;                          // loader profiles: raw file content
  std::vector<Op> ops;
  std::map<std::string, ll> faults;                       // fault kinds resolved into ops by the generator
  ll simMs = 0;
};

inline std::string dbl(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string esc(const std::string& s) {
  if (s.empty()) return "%";
  std::string o; for (unsigned char c : s) { if (c <= 32 || c == '%' || c > 126) { char b[8]; snprintf(b, sizeof b, "%%%02x", c); o += b; } else o += (char)c; } return o;
}
inline std::string unesc(const std::string& s) {
  if (s == "%") return "";
  std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; } return o;
}

// recovery profiles: everything but what client 0 meets during the faults
inline uint64_t traceFrame(const Trace& t) {
  Hash64 h; ll from = (ll)t.par.at("cleanFrom"), until = (ll)t.par.at("faultFrom"); 
  for (auto& o : t.ops) { if (o.c > 1 && o.op != 'X') continue; if (o.op == 'M') { if (o.c == 0 && o.m.ts >= until && o.m.ts < from) continue; h.add((ll)o.c); h.add(o.m.ts); h.add((ll)o.m.kind); h.add((ll)o.m.type); h.add(o.m.id); for (double v : o.m.v) h.add(v); } else if (o.op == 'X' || o.op == 'N') { h.add((ll)o.op); h.add((ll)o.c); } }
  return h.h;
}

inline void writeTrace(std::ostream& o, const Trace& t) {
  o << "profile " << t.profile << "\nseed " << t.seed << " " << t.index << "\nsimms " << t.simMs << "\n";
  for (auto& p : t.par) o << "par " << esc(p.first) << " " << dbl(p.second) << "\n";
  for (auto& f : t.faults) o << "fault " << esc(f.first) << " " << f.second << "\n";
  for (auto& L : t.world) {
    o << "level " << esc(L.id) << " " << dbl(L.altitude) << " " << dbl(L.A) << " " << dbl(L.B) << "\n";
    for (auto& x : L.tx) o << "tx " << esc(x.id) << " " << dbl(x.lat) << " " << dbl(x.lon) << " " << dbl(x.alt) << " " << dbl(x.A) << " " << dbl(x.B) << " " << dbl(x.power) << " " << x.type << "\n";
    for (auto& r : L.rp) { o << "rp " << esc(r.id) << " " << dbl(r.lat) << " " << dbl(r.lon) << " " << r.mean.size(); for (auto& m : r.mean) o << " " << esc(m.first) << " " << dbl(m.second); o << "\n"; }
    for (auto& p : L.polys) {
      o << "poly " << p.outer.size(); for (auto& q : p.outer) o << " " << dbl(q.first) << " " << dbl(q.second); o << "\n";
      for (auto& in : p.inners) { o << "hole " << in.size(); for (auto& q : in) o << " " << dbl(q.first) << " " << dbl(q.second); o << "\n"; }
    }
    for (auto& v : L.verts) o << "vert " << dbl(v.first) << " " << dbl(v.second) << "\n";
    for (auto& e : L.edges) o << "edge " << e.first << " " << e.second << "\n";
  }
  for (size_t c = 0; c < t.settings.size(); c++) { o << "client " << c << "\n"; for (auto& s : t.settings[c]) o << "set " << s.first << " " << dbl(s.second) << "\n"; }
  for (auto& s : t.text) o << "text " << esc(s) << "\n";
  for (auto& p : t.ops) {
    o << p.op << " " << p.c << " ";
    if (p.op == 'M') {
      const Msg& m = p.m;
      o << m.ts << " " << m.kind << " " << m.type << " " << esc(m.id) << " " << dbl(m.v[0]) << " " << dbl(m.v[1]) << " " << dbl(m.v[2]) << " " << dbl(m.v[3]) << " " << m.n1 << " " << m.n2;
    } else o << p.n << " " << p.k;
    o << " " << esc(p.tag) << "\n";
  }
  o << "end\n";
}

inline double rdD(std::istream& i) { std::string s; i >> s; return strtod(s.c_str(), nullptr); }
inline std::string rdS(std::istream& i) { std::string s; i >> s; return unesc(s); }
inline bool readTrace(std::istream& in, Trace& t) {
  t = Trace(); std::string line; bool done = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream i(line); std::string k; i >> k;
    if (k == "profile") i >> t.profile;
    else if (k == "seed") i >> t.seed >> t.index;
    else if (k == "simms") i >> t.simMs;
    else if (k == "par") { std::string n = rdS(i); t.par[n] = rdD(i); }
    else if (k == "fault") { std::string n = rdS(i); i >> t.faults[n]; }
    else if (k == "level") { WLevel L; L.id = rdS(i); L.altitude = rdD(i); L.A = rdD(i); L.B = rdD(i); t.world.push_back(L); }
    else if (k == "tx") { WTx x; x.id = rdS(i); x.lat = rdD(i); x.lon = rdD(i); x.alt = rdD(i); x.A = rdD(i); x.B = rdD(i); x.power = rdD(i); i >> x.type; t.world.back().tx.push_back(x); }
    else if (k == "rp") { WRp r; r.id = rdS(i); r.lat = rdD(i); r.lon = rdD(i); size_t n; i >> n; while (n--) { std::string s = rdS(i); r.mean[s] = rdD(i); } t.world.back().rp.push_back(r); }
    else if (k == "poly") { WPoly p; size_t n; i >> n; while (n--) { double a = rdD(i), b = rdD(i); p.outer.push_back({a, b}); } t.world.back().polys.push_back(p); }
    else if (k == "hole") { size_t n; i >> n; std::vector<std::pair<double, double>> h; while (n--) { double a = rdD(i), b = rdD(i); h.push_back({a, b}); } t.world.back().polys.back().inners.push_back(h); }
    else if (k == "vert") { double a = rdD(i), b = rdD(i); t.world.back().verts.push_back({a, b}); }
    else if (k == "edge") { int a, b; i >> a >> b; t.world.back().edges.push_back({a, b}); }
    else if (k == "client") { size_t c; i >> c; t.settings.resize(c + 1); }
    else if (k == "set") { std::string n; i >> n; t.settings.back()[n] = rdD(i); }
    else if (k == "text") t.text.push_back(rdS(i));
    else if (k == "end") { done = true; break; }
    else if (k.size() == 1) {
      Op p; p.op = k[0]; i >> p.c;
      if (p.op == 'M') { Msg& m = p.m; i >> m.ts >> m.kind >> m.type; m.id = rdS(i); for (double& v : m.v) v = rdD(i); i >> m.n1 >> m.n2; }
      else i >> p.n >> p.k;
      p.tag = rdS(i); t.ops.push_back(p);
    } else return false;
  }
  return done;
}

// ---- result of one execution -----------------------------------------------------------------------------------
struct Result {
  bool violation = false; std::string cls, detail; ll op = -1;
  uint64_t hash = 0;          // hash of everything observable: equal for equal seeds
  uint64_t sig = 0;           // hash of the discrete behaviour (for counting distinct runs)
  bool ambiguous = false;     // a decision was within rounding error; comparison stopped there
  bool nontrivial = false;
  ll calls = 0, msgs = 0;
  std::map<std::string, ll> probes;
  std::set<uint64_t> states;  // distinct discrete states of the reference model
  void fail(const std::string& c, const std::string& d, ll o) { if (!violation) { violation = true; cls = c; detail = d; op = o; } }
};
