#include "alloc.hpp"
#include <cmath>
#include <cstring>
#include <errno.h>
#include <new>
#include <random>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
namespace hook { thread_local State st; long long stale[8] = {1, 1, 1, 1, 1, 1, 1, 1}; void (*yieldPoint)() = nullptr; thread_local long long section = 0; long long envReads = 0; }
using hook::st;
#ifdef SIM_SIZES                                 // every block knows the size asked for (an exact count of bytes held)
enum { HEAD = 16 };
#else
enum { HEAD = 0 };
#endif
static size_t sizeOf(void* p) { return HEAD ? *(size_t*)((char*)p - HEAD) : 0; }
static void* get(size_t n, bool nothrow, void* from) {
  if (!n) n = 1;
  if (st.armed) {
    if (hook::yieldPoint) hook::yieldPoint();
    long long k = st.n++; if (st.sites) { auto* v = st.sites; st.sites = nullptr; bool a = st.armed; st.armed = false; v->push_back((uint32_t)((uintptr_t)((char*)from - (char*)&hook::envStart) * 2654435761u ^ n * 40503u)); st.armed = a; st.sites = v; }
    if (st.failAt >= 0 && k >= st.failAt && k < st.failAt + st.failCount) { st.fired++; if (nothrow) return nullptr; throw std::bad_alloc(); }
  }
  void* p = malloc(n + HEAD);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (HEAD) { *(size_t*)p = n; p = (char*)p + HEAD; }
  if (st.armed) {
    st.live++; st.bytes += (long long)sizeOf(p);
    if (st.fill >= 0 && st.fill < 256) memset(p, st.fill, n);
    else if (st.fill == 257) { auto w = [] { st.rnd ^= st.rnd << 13; st.rnd ^= st.rnd >> 7; st.rnd ^= st.rnd << 17; return hook::stale[st.rnd >> 61]; }; size_t i = 0; for (; i + 8 <= n; i += 8) { long long x = w(); memcpy((char*)p + i, &x, 8); } if (i < n) { long long x = w(); memcpy((char*)p + i, &x, n - i); } }
    else if (st.fill == 256) for (size_t i = 0; i < n; i++) { st.rnd ^= st.rnd << 13; st.rnd ^= st.rnd >> 7; st.rnd ^= st.rnd << 17; ((unsigned char*)p)[i] = (unsigned char)st.rnd; }
  }
  return p;
}
static void put(void* p) { if (!p) return; if (st.armed) { st.live--; st.bytes -= (long long)sizeOf(p); } free((char*)p - HEAD); }
void* operator new(size_t n) { return get(n, false, __builtin_return_address(0)); }
void* operator new[](size_t n) { return get(n, false, __builtin_return_address(0)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, true, __builtin_return_address(0)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, true, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

// ---- the world outside -----------------------------------------------------------------------------------------
namespace {
struct Env {
  uint64_t s = 0x9E3779B97F4A7C15ull, rnd = 1; long long mono = 5000000000ll, wall = 1600000000000000000ll, seen = -1; double gap = 1e6, back = 0;
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (double)(next() >> 11) / 9007199254740992.0; }
  void pass(long long ns) { mono += ns; wall += ns; }
  void read() {   // time passes mostly between calls, sometimes (the process was stopped) in one; only the wall clock is ever set back
    hook::envReads++; pass(100 + (long long)(u() * 2000)); bool first = hook::section != seen; seen = hook::section;
    if (first || u() < .03) { pass((long long)(-std::log(1 - u()) * gap)); if (u() < back) wall += (long long)((u() - .5) * 2 * 86400e9 * 30); if (u() < .02) pass((long long)(u() * 8 * 3600e9)); }
  }
} env;
inline bool sim() { return hook::st.armed; }
int clk(clockid_t c, timespec* t) { env.read(); long long v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? env.wall : c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME ? env.mono : env.mono / 7; t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
}
namespace hook { void envStart(uint64_t seed) {
  env = Env(); env.s ^= seed * 0xD1342543DE82EF95ull; env.next(); static const double gaps[] = {0, 1e4, 1e6, 1e8, 1e9, 3e9, 2e10, 3e11}; env.gap = gaps[env.next() % 8]; env.back = env.u() < .3 ? .02 : 0;
  env.mono = (long long)(env.u() * 1e15); env.wall = 1500000000000000000ll + (long long)(env.u() * 3e17); env.rnd = env.next(); section++; } }
extern "C" {
int clock_gettime(clockid_t c, timespec* t) noexcept { return sim() ? clk(c, t) : (int)syscall(SYS_clock_gettime, c, t); }
int gettimeofday(timeval* t, void*) noexcept { timespec s; if (sim()) clk(CLOCK_REALTIME, &s); else syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* t) noexcept { timespec s; if (sim()) clk(CLOCK_REALTIME, &s); else syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int timespec_get(timespec* t, int b) noexcept { if (sim()) clk(CLOCK_REALTIME, t); else syscall(SYS_clock_gettime, CLOCK_REALTIME, t); return b; }
clock_t clock() noexcept { timespec s; if (sim()) clk(CLOCK_PROCESS_CPUTIME_ID, &s); else syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * 1000000 + s.tv_nsec / 1000; }
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) { if (!sim()) { long r = syscall(SYS_clock_nanosleep, c, f, a, b); return r < 0 ? errno : 0; } env.read(); if (!(f & TIMER_ABSTIME)) env.pass(a->tv_sec * 1000000000ll + a->tv_nsec); else { long long w = a->tv_sec * 1000000000ll + a->tv_nsec, n = c == CLOCK_REALTIME ? env.wall : env.mono; if (w > n) env.pass(w - n); } return 0; }
int nanosleep(const timespec* a, timespec* b) { if (!sim()) return (int)syscall(SYS_nanosleep, a, b); env.read(); env.pass(a->tv_sec * 1000000000ll + a->tv_nsec); return 0; }
int usleep(useconds_t n) { timespec t{(time_t)(n / 1000000), (long)(n % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned n) { timespec t{(time_t)n, 0}; nanosleep(&t, nullptr); return 0; }
static uint64_t rnd() { env.rnd = env.rnd * 6364136223846793005ull + 1442695040888963407ull; hook::envReads++; return env.rnd >> 33; }
int rand() noexcept { return (int)(rnd() & 0x7fffffff); }
void srand(unsigned s) noexcept { env.rnd = s * 2654435761ull + 12345; }
long random() noexcept { return (long)(rnd() & 0x7fffffff); }
void srandom(unsigned s) noexcept { srand(s); }
ssize_t getrandom(void* p, size_t n, unsigned f) { if (!sim()) return syscall(SYS_getrandom, p, n, f); hook::envReads++; for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)env.next(); return (ssize_t)n; }
int getentropy(void* p, size_t n) { return getrandom(p, n, 0) == (ssize_t)n ? 0 : -1; }
uint32_t arc4random() noexcept { uint32_t v; getrandom(&v, sizeof v, 0); return v; }
}
std::random_device::result_type std::random_device::_M_getval() { uint32_t v; getrandom(&v, sizeof v, 0); return v; }
