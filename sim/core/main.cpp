#include "../main.hpp"
#include "exec.hpp"
#include "profiles.hpp"
#ifdef SIM_THREADS
#include "threads.hpp"
#endif
#ifdef SIM_SOAK
#include "soak.hpp"
#endif
Trace generate(const std::string& p, uint64_t seed, ll i) { return gen::make(p, seed, i); }
static ex::Plan plan(const std::string& p) {
  ex::Plan q; ex::Mask& m = q.m; auto all = [&] { m.status = m.level = m.pos = m.radius = m.prov = m.ori = m.steps = m.in = m.out = true; };
  typedef std::vector<std::vector<std::string>> N;
  if (p == "C03") { all(); q.twin = ex::TWIN_STALE; q.need = N{{"nav.stale"}, {"zone.pos", "knn.tri", "knn.k"}}; }
  else if (p == "C05") { m.status = m.level = true; q.need = N{{"nav.nosignal", "nav.noaction", "pp.old"}, {"zone.pos", "knn.tri", "knn.k"}}; }
  else if (p == "C06") { m.status = m.level = m.pos = m.radius = m.prov = m.in = true; q.twin = ex::TWIN_INELIGIBLE; q.need = N{{"sig.used"}, {"twin.replaced"}}; }
  else if (p == "C07") { m.status = m.level = m.pos = m.radius = m.in = true; q.need = N{{"win.averaged", "win.keep", "win.closest"}, {"zone.pos", "knn.tri", "knn.k"}}; }
  else if (p == "C08") { m.status = m.level = true; q.need = N{{"lvl.other", "lvl.change"}}; }
  else if (p == "C09") { m.status = m.level = true; q.need = N{{"baro.follow", "baro.block"}}; }
  else if (p == "C10") { m.status = m.level = m.pos = m.radius = m.prov = m.in = true; q.need = N{{"zone.pos"}}; }
  else if (p == "C11") { m.status = m.level = m.pos = m.radius = m.prov = m.in = true; q.need = N{{"knn.tri", "knn.k"}}; }
  else if (p == "C12") { m.status = m.level = m.pos = m.radius = true; q.need = N{{"ab.smooth", "lsq.smooth"}}; }
  else if (p == "C13") { m.status = m.level = m.pos = m.radius = m.prov = m.out = true; q.need = N{{"gps.accepted"}}; }
  else if (p == "C14") { m.status = m.level = m.pos = true; q.need = N{{"stop.hold"}}; }
  else if (p == "C15") { m.status = m.level = m.pos = true; q.need = N{{"graph.project", "time.interp"}}; }
  else if (p == "C16") { m.steps = true; q.need = N{{"ped.step"}}; }
  else if (p == "C26") { m.status = m.level = m.alt = true; q.twin = ex::TWIN_NO_ALTITUDE; q.need = N{{"alt.known"}}; }
  else if (p == "C17") { m.ori = true; q.need = N{{"zone.pos", "knn.tri", "knn.k", "gps.accepted"}}; }
  return q;
}
Result execute(const Trace& t) {
  const std::string& p = t.profile;
  if (p == "C01") return ex::determinism(t);
#ifdef SIM_THREADS
  if (p == "C02") return ex::threads(t);
#endif
#ifdef SIM_SOAK
  if (p == "C27") return ex::soakRun(t);
#endif
  if (p == "C04") return ex::hostile(t);
  if (p == "C18") return ex::recovery(t, false);
  if (p == "C19") return ex::recovery(t, true);
  if (p == "C20") return ex::mapBuild(t);
  return ex::lockstep(t, plan(p));
}
int main(int argc, char** argv) { return proto::mainLoop(argc, argv); }
