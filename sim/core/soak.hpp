// C27 for the navigation client: rounds of one faulty stretch of a session, see ../soak.hpp.
#pragma once
#include "../soak.hpp"
#include "exec.hpp"
extern "C" void __sanitizer_cov_trace_pc() { if (hook::st.armed) soak::blocks++; }
namespace ex {
// play(t, call, restart, round): the whole session; strangers get a fresh address in every round
template <class C, class RS, class RD> void play(const Trace& t, C call, RS restart, RD roundDone, int rounds) {
  std::set<std::string> known; for (auto& L : t.world) { for (auto& x : L.tx) known.insert(x.id); for (auto& p : L.rp) for (auto& m : p.mean) known.insert(m.first); }
  ll lo = 0, hi = 0; bool any = false; for (auto& o : t.ops) if (o.op == 'M') { if (!any) lo = hi = o.m.ts; any = true; lo = std::min(lo, o.m.ts); hi = std::max(hi, o.m.ts); }
  ll period = std::max<ll>(2000, hi - lo + 1 + (ll)t.par.at("pause")); bool fresh = t.par.at("fresh") != 0; std::vector<Msg> batch;
  for (int round = 0; round < rounds; round++) {
    size_t k = 0;
    for (auto& op : t.ops) {
      k++; if (op.tag == "once" && round) continue;
      if (op.op == 'M') { Msg x = op.m; x.ts += period * round; if (fresh && x.kind == MK_RADIO && !known.count(x.id)) { char b[16]; snprintf(b, sizeof b, "/%08x", (unsigned)(round * 2654435761u)); x.id += b; } batch.push_back(x); }
      else if (op.op == 'R') { batch.clear(); restart(); }
      else if (op.op == 'N') { if (!call(batch, round, (ll)k - 1)) return; batch.clear(); }
    }
    roundDone(round);
  }
}
inline Result soakRun(const Trace& t, int rounds = 64) {
  using soak::Meter; Result R; Hash64 H, S; auto map = real::buildMap(t.world); auto set = real::settings(t.settings[0], t.world); auto stops = t.settings[0].find("useStops");
  int steps0 = -1, steps = 0; ll posLate = 0; bool walked = false; long long before = hook::st.bytes; Meter m; m.rounds = rounds; real::Client rc; rc.create(map, set); m.begin();
  play(t, [&](const std::vector<Msg>& batch, int round, ll k) {
    std::vector<real::Out> o;
    try { o = rc.call(batch); } catch (const std::exception& e) { R.fail("exception", std::string("navigate threw ") + e.what(), k); return false; }
    R.calls++; R.msgs += batch.size(); m.call();
    for (auto& x : o) {
      if (round < 2 || round == rounds - 1) real::hashOut(H, x); steps = x.steps; if (x.status == 0 && round >= 32) posLate++; if (round == rounds - 1) { S.add((ll)x.status); S.add(x.lvl); S.add((ll)x.prov); }
      if (R.states.size() < 3000) { Hash64 h; h.add((ll)x.status); h.add(x.lvl); h.add((ll)x.prov); h.add((ll)(63 - __builtin_clzll((unsigned long long)std::max<long long>(1, hook::st.bytes)))); h.add((ll)std::min(x.steps, 3)); R.states.insert(h.h); }
    }
    return true;
  }, [&] { rc.destroy(); rc.create(map, set); }, [&](int round) { m.end(); m.begin(); if (round == rounds / 8) steps0 = steps; if (round > rounds / 8 && steps != steps0) walked = true; }, rounds);
  rc.destroy(); long long left = hook::st.bytes - before;
  for (auto v : m.mem) H.add((ll)v); for (auto v : m.work) H.add((ll)v);
  if (!R.violation) {
    bool mem = m.memory(), eff = m.effort(), hold = false; ll last = (ll)t.ops.size() - 1;
    if ((mem || eff) && stops != t.settings[0].end() && stops->second) {   // the recorded finding: while the device stands still the signal window is never let go. As much as the reference keeps is explained by it
      auto mmap = std::make_shared<const model::Map>(t.world); model::Cfg cfg(t.settings[0]); std::map<std::string, ll> pr; std::unique_ptr<model::Client> mod(new model::Client(mmap, cfg, &pr)); std::vector<double> n;
      play(t, [&](const std::vector<Msg>& b, int, ll) { mod->navigate(b); return true; }, [&] { mod.reset(new model::Client(mmap, cfg, &pr)); }, [&](int) { n.push_back((double)mod->buf.size()); }, rounds);
      if ((int)n.size() == rounds && Meter::runaway(n[m.at(0)], n[m.at(1)], n[m.at(2)], n[m.at(3)], 1)) hold = (double)(m.mem[m.at(3)] - m.mem[m.at(0)]) <= (n[m.at(3)] - n[m.at(0)]) * 500 + 4096;
    }
    if (!hold && m.maybe() && rounds == 64) { Result l = soakRun(t, 256); l.probes["soak.longer look"]++; return l; }
    if (hold) R.fail("standing-still", "the signals heard since the last step are never let go; " + m.str(), last);
    else if (mem) R.fail("memory", "memory held grows with the session; " + m.str(), last);
    else if (eff) R.fail("work", "the work of a call grows with the session; " + m.str(), last);
    if (left > 0) R.probes["soak.kept"]++;
    if (walked) R.probes["soak.walking"]++; else if (steps) R.probes["soak.still"]++; if (posLate) R.probes["soak.positions"]++;
  }
  R.hash = H.h; R.sig = S.h; R.nontrivial = posLate > 0 && (int)m.mem.size() == rounds;
  return R;
}
}
