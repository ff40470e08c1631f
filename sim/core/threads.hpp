// C02: every client on a real thread of its own; one token decides who runs. The simulator takes the token away at any
// load, store, atomic operation or function entry of the core, at allocations, at contended locks and between calls.
#pragma once
#include <atomic>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include "exec.hpp"
#include "race.hpp"

namespace sched {
static std::atomic<int> turn{-1}; thread_local int me = -1; bool on = false; static thread_local bool inside = false;
static Rng* rng; static std::vector<char>* alive; static ll countdown, mean, switches, cap, spin; static double eager; static Hash64* path;
NOI inline void futex(int op, int v) { syscall(SYS_futex, (int*)&turn, op, v, nullptr, nullptr, 0); }
NOI inline void waitTurn() { int v; while ((v = turn.load(std::memory_order_relaxed)) != me) futex(FUTEX_WAIT_PRIVATE, v); }
NOI inline void give(int to) { turn.store(to, std::memory_order_relaxed); futex(FUTEX_WAKE_PRIVATE, 1 << 20); }
NOI inline int other() {
  int n = 0; for (size_t i = 0; i < alive->size(); i++) if ((*alive)[i] && (int)i != me) n++; if (!n) return -1;
  int k = (int)rng->i(0, n - 1); for (size_t i = 0; i < alive->size(); i++) if ((*alive)[i] && (int)i != me && k-- == 0) return (int)i; return -1;
}
NOI inline void hand(bool forced) {
  bool armed = hook::st.armed, in = inside; hook::st.armed = false; inside = true; int o = other();
  if (o >= 0) { switches++; path->add((ll)o); give(o); waitTurn(); } else if (forced) usleep(1000);
  hook::st.armed = armed; inside = in;
}
NOI inline void point() { if (!on || me < 0 || inside) return; spin = 0; if (--countdown > 0) return; if (switches >= cap) { countdown = 1ll << 60; return; } inside = true; countdown = 1 + (ll)(-std::log(1 - rng->u()) * mean); hand(false); inside = false; }
NOI void pass(bool) { point(); }
NOI void access(const void* p, unsigned n, bool write, void* pc) {
  if (me < 0 || !on || inside) return;
  uintptr_t a = (uintptr_t)p;
  if (race::detect && (a < race::lo || a >= race::hi)) {
    inside = true; bool common = race::touch(me, a, n, write, pc);
    if (common && write) { race::shared++; if (switches < cap && rng->p(eager)) hand(false); }
    inside = false;
  }
  point();
}
NOI void atomicOp(const void* p, bool acq, bool rel) { // the operation follows at once: first let others run, then order
  if (me < 0 || !on || inside) return;
  inside = true; if (switches >= cap && ++spin > 100000) { spin = 0; hand(true); } inside = false; // somebody may be waiting for a parked client
  ll s = spin; point(); if (switches >= cap) spin = s;
  inside = true; if (acq) race::acquire(me, p); if (rel) race::release(me, p); inside = false;
}
NOI inline void blocked() { if (on && me >= 0) { inside = true; hand(true); inside = false; } else syscall(SYS_sched_yield); }
NOI inline void got(const void* p) { if (on && me >= 0 && !inside) { inside = true; race::acquire(me, p); inside = false; } }
NOI inline void gave(const void* p) { if (on && me >= 0 && !inside) { inside = true; race::release(me, p); inside = false; } }
} // namespace sched
// a lock held by a parked client must not stop the client that has the token; what a lock orders is recorded
extern "C" {
#define REAL(f, ...) static int (*real)(__VA_ARGS__) = (int (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #f)
NOI int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_trylock, pthread_mutex_t*); int r = real(m); if (!r) sched::got(m); return r; }
NOI int pthread_mutex_lock(pthread_mutex_t* m) noexcept { int r; sched::point(); while ((r = pthread_mutex_trylock(m)) == EBUSY) sched::blocked(); return r; }
NOI int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_unlock, pthread_mutex_t*); sched::gave(m); int r = real(m); sched::point(); return r; }
NOI int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_tryrdlock, pthread_rwlock_t*); int r = real(m); if (!r) sched::got(m); return r; }
NOI int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_trywrlock, pthread_rwlock_t*); int r = real(m); if (!r) sched::got(m); return r; }
NOI int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { int r; sched::point(); while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) sched::blocked(); return r; }
NOI int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { int r; sched::point(); while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) sched::blocked(); return r; }
NOI int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_unlock, pthread_rwlock_t*); sched::gave(m); int r = real(m); sched::point(); return r; }
NOI int pthread_once(pthread_once_t* o, void (*f)()) { // 0 new, 1 running, 2 done
  while (__atomic_load_n(o, __ATOMIC_RELAXED) == 1) sched::blocked();
  if (__atomic_load_n(o, __ATOMIC_RELAXED) == 2) { sched::got(o); return 0; }
  *o = 1; try { f(); } catch (...) { *o = 0; throw; } sched::gave(o); *o = 2; return 0;
}
NOI int sched_yield() noexcept { if (sched::on && sched::me >= 0 && !sched::inside) sched::blocked(); return 0; }
} // extern "C"
namespace __cxxabiv1 { extern "C" { // function-local statics: same rule as for mutexes
NOI int __cxa_guard_acquire(__guard* q) { char* g = (char*)q; if (g[0]) { sched::got(q); return 0; } while (g[1]) sched::blocked(); if (g[0]) { sched::got(q); return 0; } g[1] = 1; return 1; }
NOI void __cxa_guard_release(__guard* q) noexcept { char* g = (char*)q; sched::gave(q); g[0] = 1; g[1] = 0; }
NOI void __cxa_guard_abort(__guard* q) noexcept { char* g = (char*)q; g[1] = 0; }
} }
namespace ex {
typedef std::vector<std::vector<real::Out>> Calls;
inline void oneClient(const Trace& t, int c, const std::shared_ptr<real::nc::LevelCollector>& map, Calls& out, std::string& err) {
  try {
    real::Client k; auto s = real::settings(t.settings[c], t.world); k.create(map, s); std::vector<Msg> b;
    for (auto& op : t.ops) {
      if (op.c != c) continue;
      if (op.op == 'M') b.push_back(op.m); else if (op.op == 'R') { k.destroy(); sched::point(); k.create(map, s); b.clear(); } else if (op.op == 'N') { out.push_back(k.call(b)); b.clear(); sched::point(); }
    }
    k.destroy();
  } catch (const std::exception& e) { err = e.what(); hook::st.armed = false; }
}
// calls of one client may come from changing threads, as long as they do not overlap: the next free thread takes the next free client
struct Roam { real::Client k; size_t at = 0; size_t calls = 0; bool busy = false, over = false, begun = false; std::vector<Msg> b; };
inline void roam(const Trace& t, std::vector<Roam>& cs, const std::shared_ptr<real::nc::LevelCollector>& map, std::vector<Calls>& out, std::vector<std::string>& err, double step) {
  for (;;) {
    std::vector<int> ready; bool left = false; for (size_t i = 0; i < cs.size(); i++) if (!cs[i].over) { left = true; if (!cs[i].busy) ready.push_back((int)i); }
    if (!left) return; if (ready.empty()) { sched::blocked(); continue; }
    int c = ready[(size_t)sched::rng->i(0, (ll)ready.size() - 1)]; if (step > 0 && sched::rng->p(step)) for (int o : ready) if (cs[o].calls < cs[c].calls) c = o;   // side by side
    Roam& q = cs[c]; q.busy = true; sched::got(&q);
    try {
      auto s = real::settings(t.settings[c], t.world); bool called = false; if (!q.begun) { q.k.create(map, s); q.begun = true; }
      for (; q.at < t.ops.size() && !called; q.at++) { auto& op = t.ops[q.at]; if (op.c != c) continue;
        if (op.op == 'M') q.b.push_back(op.m); else if (op.op == 'R') { q.k.destroy(); sched::point(); q.k.create(map, s); q.b.clear(); } else if (op.op == 'N') { out[c].push_back(q.k.call(q.b)); q.b.clear(); q.calls++; called = true; } }
      if (q.at >= t.ops.size()) { q.k.destroy(); q.over = true; }
    } catch (const std::exception& e) { err[c] = e.what(); hook::st.armed = false; q.over = true; }
    sched::gave(&q); q.busy = false; sched::point();
  }
}
inline Result threads(const Trace& t) {
  Result R; Hash64 H, S; size_t n = std::min<size_t>(t.settings.size(), race::T); std::vector<Calls> alone(n), together(n); std::vector<std::string> e1(n), e2(n);
  auto par = [&](const char* k, double d) { auto i = t.par.find(k); return i == t.par.end() ? d : i->second; };
  auto solo = [&] { for (size_t i = 0; i < n; i++) { auto m = real::buildMap(t.world); oneClient(t, (int)i, m, alone[i], e1[i]); } };
  bool first = par("first", 0) > 0; if (!first) solo(); // whatever the core sets up once per process is set up by one client, or by several at once
  auto map = real::buildMap(t.world); uint64_t d = real::digest(*map, t.world);
  Rng rng((uint64_t)t.par.at("sched"), 5); Hash64 path; std::vector<char> alive(n, 1); std::vector<Roam> free(n); bool moving = par("roam", 0) > 0; sched::rng = &rng; sched::alive = &alive; sched::path = &path; sched::switches = sched::spin = 0; sched::cap = 6000; sched::eager = par("eager", .5); sched::mean = std::max<ll>(1, (ll)par("mean", 1000)); sched::countdown = 1 + (ll)(sched::mean * rng.u());
  race::start(); race::detect = true; sched::turn = -1; sched::on = true; hook::yieldPoint = sched::point; std::vector<std::thread> th;
  for (size_t i = 0; i < n; i++) th.emplace_back([&, i] {
    pthread_attr_t at; void* lo; size_t sz; if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); race::lo = (uintptr_t)lo; race::hi = race::lo + sz; pthread_attr_destroy(&at); }
    sched::me = (int)i; sched::waitTurn(); if (moving) roam(t, free, map, together, e2, par("step", 0)); else oneClient(t, (int)i, map, together[i], e2[i]); alive[i] = 0; int o = sched::other(); sched::me = -1; if (o >= 0) sched::give(o); });
  sched::give((int)rng.i(0, (ll)n - 1));
  for (auto& x : th) x.join();
  race::detect = false; sched::on = false; hook::yieldPoint = nullptr; R.probes["switches"] = sched::switches; R.probes["threads"] = (ll)n; R.probes["clients change threads"] = moving; R.probes["access"] = race::accesses; R.probes["access.shared.write"] = race::shared; R.probes["sync"] = race::syncs; S.add((ll)path.h);
  if (first) solo();
  if (race::found) R.fail("race", race::what, -1);
  for (size_t i = 0; i < n && !R.violation; i++) {
    R.calls += together[i].size(); for (auto& o : together[i]) { R.msgs += o.size(); for (auto& x : o) { real::hashOut(H, x); if (x.status == 0) R.probes["ok"]++; Hash64 q; q.add((ll)x.status); q.add(x.lvl); q.add((ll)x.prov); R.states.insert(q.h); } }
    if (e1[i] != e2[i]) { R.fail("exception", "client " + std::to_string(i) + " failed with: " + e2[i] + " (alone: " + e1[i] + ")", -1); break; }
    if (alone[i].size() != together[i].size()) { R.fail("count", "number of calls", -1); break; }
    for (size_t k = 0; k < alone[i].size() && !R.violation; k++) {
      if (alone[i][k].size() != together[i][k].size()) { R.fail("count", "client " + std::to_string(i) + " call " + std::to_string(k) + ": number of outputs", (ll)k); break; }
      for (size_t q = 0; q < alone[i][k].size(); q++) if (!real::same(alone[i][k][q], together[i][k][q])) { R.fail("differs", "client " + std::to_string(i) + " call " + std::to_string(k) + ": among others " + real::str(together[i][k][q]) + " | alone " + real::str(alone[i][k][q]), (ll)k); break; }
    }
  }
  if (!R.violation && real::digest(*map, t.world) != d) R.fail("map", "the shared map changed", -1);
  H.add((ll)sched::switches); R.hash = H.h; R.sig = S.h; R.nontrivial = R.probes.count("ok") && n > 1 && sched::switches > 10; return R;
}
} // namespace ex
