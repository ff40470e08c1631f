// C27 for the standalone algorithms: rounds of one stretch of their own profile's traces, see soak.hpp.
#pragma once
#include "soak.hpp"
#include "small.hpp"
#include <set>
extern "C" void __sanitizer_cov_trace_pc() { if (hook::st.armed) soak::blocks++; }
namespace small {
// a stretch of at most n messages of a trace, closed by what makes the component work up what it was given
inline Trace stretch(Trace t, Rng& r, ll n, const std::vector<Op>& close) {
  Trace o = t; o.profile = "C27"; o.par.erase("tailFrom"); o.par.erase("cleanFrom"); o.ops.clear(); ll k = 0; for (auto& p : t.ops) { if (p.op == 'M' && ++k > n) break; o.ops.push_back(p); } for (auto& p : close) o.ops.push_back(p);
  o.par["pause"] = r.p(.5) ? (double)r.i(0, 1500) : r.p(.6) ? (double)r.i(1500, 90000) : (double)r.i(90000, 7200000); o.par["fresh"] = r.p(.7); if (o.par["fresh"]) o.faults["stranger that changes its address"]++; if (o.par["pause"] > 1500) o.faults["pause between rounds"]++;
  if (r.p(.3)) { size_t cut = (size_t)((double)o.ops.size() * r.uni(.1, .6)); for (size_t i = 0; i < cut; i++) o.ops[i].tag = "once"; }
  ll lo = 0, hi = 0; bool any = false; for (auto& p : o.ops) if (p.op == 'M') { if (!any) lo = hi = p.m.ts; any = true; lo = std::min(lo, p.m.ts); hi = std::max(hi, p.m.ts); } o.simMs = 64 * std::max<ll>(2000, hi - lo + 1 + (ll)o.par["pause"]); return o;
}
// App: make(), message(Msg), step(Op) -> true when it gave a result; they arm the allocator around the real calls
template <class App> Result soakAlone(const Trace& t, App& app, int rounds = 64) {
  using soak::Meter; Result R; Obs H; Meter m; m.rounds = rounds; std::set<std::string> known; for (auto& L : t.world) for (auto& x : L.tx) known.insert(x.id); ll lo = 0, hi = 0, results = 0; bool any = false;
  for (auto& o : t.ops) if (o.op == 'M') { if (!any) lo = hi = o.m.ts; any = true; lo = std::min(lo, o.m.ts); hi = std::max(hi, o.m.ts); } ll period = std::max<ll>(2000, hi - lo + 1 + (ll)t.par.at("pause")); bool fresh = t.par.at("fresh") != 0;
  hook::st.fill = 0xA5; app.make();
  for (int round = 0; round < rounds; round++) {
    m.begin();
    for (auto& o : t.ops) {
      if (o.tag == "once" && round) continue;
      if (o.op == 'M') { Msg x = o.m; x.ts += period * round; if (fresh && x.kind == MK_RADIO && !known.count(x.id)) { char b[16]; snprintf(b, sizeof b, "/%08x", (unsigned)(round * 2654435761u)); x.id += b; } R.msgs++; if (app.message(x) && round >= 32) results++; }
      else if (o.op == 'R') app.make();
      else { R.calls++; if (app.step(o) && round >= 32) results++; }
      m.call(); if (R.states.size() < 2000) { Hash64 q; q.add((ll)o.op); q.add(o.n); q.add((ll)(hook::st.bytes / 64)); R.states.insert(q.h); }
    }
    m.end(); H.disc((ll)m.mem.back()); H.disc((ll)m.work.back());
  }
  if (rounds == 64 && m.maybe()) return soakAlone(t, app, 256);
  if (m.memory()) R.fail("memory", "memory held grows with the session; " + m.str(), (ll)t.ops.size() - 1);
  else if (m.effort()) R.fail("work", "the work of a call grows with the session; " + m.str(), (ll)t.ops.size() - 1);
  R.nontrivial = results > 0; R.probes["results in the second half"] += results; R.hash = H.h.h; R.sig = H.s.h; return R;
}
}
