// C27: what a component holds and what a call costs must not grow with the length of the session. The same stretch of
// a session is played over and over (the clock goes on, strangers' addresses change); after 8, 16, 32 and 64 rounds the
// memory held (bytes of live blocks, simulated allocator) and the work of a round (basic blocks executed, counted by the
// compiler's own probes) are read. Growth that at least keeps its pace over every doubling is growth without a bound;
// anything that fills up passes: a run that still grows after 64 rounds is played again for 256, and only the last three
// doublings of those count.
#pragma once
#include "alloc.hpp"
#include "trace.hpp"
#include <cmath>
namespace soak {
inline unsigned long long blocks = 0;          // basic blocks of the code under test executed by armed threads
struct Meter {   // three readings of the memory a round: at its end, least and most after a call (a window that fills and empties drifts through its phases in some of them, a leak shows in all)
  std::vector<long long> mem, low, high, work; long long w0 = 0, lo = -1, hi = -1;
  void begin() { w0 = (long long)blocks; lo = hi = -1; }
  void call() { long long b = hook::st.bytes; if (lo < 0 || b < lo) lo = b; if (b > hi) hi = b; }
  void end() { call(); mem.push_back(hook::st.bytes); low.push_back(lo); high.push_back(hi); work.push_back((long long)blocks - w0); }
  int rounds = 64; int at(int k) const { return (rounds >> (3 - k)) - 1; }   // the four points of judgement
  double avg(int n) const { double s = 0; for (int i = n - 4; i < n; i++) s += (double)work[i]; return s / 4; }
  static bool runaway(double a, double b, double c, double d, double slack) { double p = b - a, q = c - b, r = d - c; return p > 0 && q > slack && q >= 1.5 * p && r >= 1.5 * q; }
  bool grows(const std::vector<long long>& v) const { return (int)v.size() >= rounds && runaway((double)v[at(0)], (double)v[at(1)], (double)v[at(2)], (double)v[at(3)], 64 + .002 * (double)v[at(0)]); }
  bool maybe() const { auto up = [&](const std::vector<long long>& v) { return v[at(3)] > v[at(2)] + 32; }; return (int)mem.size() >= rounds && ((up(mem) && up(low) && up(high)) || avg(at(3) + 1) > 1.05 * avg(at(2) + 1) + 20); }   // worth a longer look
  bool memory() const { return grows(mem) && grows(low) && grows(high); }
  bool effort() const { return (int)mem.size() >= rounds && runaway(avg(at(0) + 1), avg(at(1) + 1), avg(at(2) + 1), avg(at(3) + 1), .05 * avg(at(0) + 1) + 50); }
  std::string str() const { std::string o = "bytes held after " + std::to_string(at(0) + 1) + ", " + std::to_string(at(1) + 1) + ", " + std::to_string(at(2) + 1) + ", " + std::to_string(rounds) + " rounds:"; for (int k = 0; k < 4; k++) o += " " + std::to_string(mem[at(k)]); o += "; blocks executed per round:"; for (int k = 0; k < 4; k++) o += " " + std::to_string((long long)avg(at(k) + 1)); return o; }
};
}
