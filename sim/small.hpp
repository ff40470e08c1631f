// Shared by the simulators of the standalone algorithms: transport faults on a stream of samples, and result helpers.
#pragma once
#include <algorithm>
#include "trace.hpp"
#include "alloc.hpp"

namespace small {
inline double angDiff(double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)); }
inline bool near(double a, double b, double abs, double rel = 0) { if (a == b) return true; if (a != a || b != b) return a != a && b != b; return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }

// What the transport does to a stream of messages in send order: which arrive, how often, how late, with which content and stamp.
struct Transport {
  Rng& r; Trace& T; double loss = 0, dup = 0, corrupt = 0, late = 0; ll lateMs = 0; bool outage = false, stall = false, jump = false;
  Transport(Rng& rng, Trace& t) : r(rng), T(t) { if (r.p(.5)) loss = r.p(.2) ? r.uni(.3, .8) : r.uni(.01, .2); if (r.p(.4)) dup = r.uni(.01, .2); if (r.p(.3)) corrupt = r.uni(.002, .05); if (r.p(.4)) { late = r.uni(.02, .4); lateMs = r.i(1, r.p(.5) ? 200 : 4000); } outage = r.p(.3); stall = r.p(.3); jump = r.p(.15); }
  void fault(const std::string& k, ll n = 1) { T.faults[k] += n; }
  // in: send order with true stamps; out: delivery order (arrival time, message)
  std::vector<std::pair<ll, Msg>> deliver(const std::vector<Msg>& in, bool reorder) {
    std::vector<std::pair<ll, Msg>> out; if (in.empty()) return out; ll t0 = in.front().ts, t1 = in.back().ts, oA = 0, oB = 0, sA = 0, sB = 0;
    if (outage) { oA = r.i(t0, t1); oB = oA + r.i(100, r.p(.3) ? 20000 : 3000); } if (stall) { sA = r.i(t0, t1); sB = sA + r.i(100, 4000); }
    for (auto& m : in) {
      if (outage && m.ts >= oA && m.ts < oB) { fault("outage"); continue; } if (loss > 0 && r.p(loss)) { fault("sample lost"); continue; }
      ll at = m.ts; if (stall && at >= sA && at < sB) { at = sB; fault("stalled"); } if (late > 0 && r.p(late)) { at += r.i(1, lateMs); fault("late"); }
      out.push_back({at, m}); if (dup > 0 && r.p(dup)) { out.push_back({at + (reorder ? r.i(0, 300) : 0), m}); fault("sample duplicated"); }
    }
    if (reorder) std::stable_sort(out.begin(), out.end(), [](auto& a, auto& b) { return a.first < b.first; });
    return out;
  }
};
struct Obs {   // history of one execution
  Hash64 h, s; void out(double v) { h.add(v); } void out(ll v) { h.add(v); } void disc(ll v) { h.add(v); s.add(v); }
};
}
