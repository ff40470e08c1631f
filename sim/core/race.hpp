// Every load, store and atomic operation of the core (compiled with -fsanitize=thread, but linked with the callbacks
// below instead of the ThreadSanitizer runtime) is a point where the seeded scheduler may take the token away, and is
// checked against the happens-before order of the simulated execution: vector clocks over mutexes, atomics, static
// guards and call_once. What is judged depends on the seed alone, never on where the allocator put things.
#pragma once
#include <dlfcn.h>
#include <cxxabi.h>
#include <malloc.h>
#include <sys/mman.h>
#define NOI __attribute__((no_instrument_function))

namespace sched { void access(const void* p, unsigned n, bool write, void* pc); void atomicOp(const void* p, bool acq, bool rel); void pass(bool forced); extern thread_local int me; extern bool on; }
namespace race {
typedef uint32_t clk; const int T = 4;
struct Cell { clk w[T], r[T]; unsigned char wm[T], rm[T]; };                      // last write and read of each client in 8 bytes of memory
struct Page { uintptr_t no; Cell c[512]; };
static Page* pages[1 << 16]; static clk vc[T][T]; static bool detect, found; static char what[600];
struct Sync { uintptr_t a; clk v[T]; }; static Sync sync[1 << 14];
static thread_local uintptr_t lo = 1, hi = 0;                                     // own stack (and thread-local data)
static long long shared, accesses, races, syncs;
inline Page* page(uintptr_t no, bool make) {
  size_t i = (no * 0x9E3779B97F4A7C15ull) >> 48; while (pages[i] && pages[i]->no != no) i = (i + 1) & 0xFFFF;
  if (!pages[i] && make) { void* m = mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) _exit(71); pages[i] = (Page*)m; pages[i]->no = no; }
  return pages[i];
}
inline void start() {
  for (auto& p : pages) if (p) { munmap(p, sizeof(Page)); p = nullptr; }
  memset(sync, 0, sizeof sync); memset(vc, 0, sizeof vc); for (int i = 0; i < T; i++) vc[i][i] = 1; found = false; what[0] = 0; shared = accesses = races = syncs = 0;
}
inline void forget(void* p) { // freed memory has no history
  if (!p || !detect) return; uintptr_t a = (uintptr_t)p, e = a + malloc_usable_size(p);
  while (a < e) { uintptr_t no = a >> 12, end = std::min(e, (no + 1) << 12); Page* g = page(no, false); if (g) memset((void*)&g->c[(a & 4095) >> 3], 0, (((end - 1) >> 3) - (a >> 3) + 1) * sizeof(Cell)); a = end; }
}
inline Sync* syncOf(const void* p) { uintptr_t a = (uintptr_t)p; size_t i = (a * 0x9E3779B97F4A7C15ull) >> 50; for (int k = 0; k < 1 << 14; k++, i = (i + 1) & 0x3FFF) { if (sync[i].a == a) return &sync[i]; if (!sync[i].a) { sync[i].a = a; return &sync[i]; } } return &sync[0]; }
inline void acquire(int t, const void* p) { if (!detect) return; syncs++; Sync* s = syncOf(p); for (int i = 0; i < T; i++) vc[t][i] = std::max(vc[t][i], s->v[i]); }
inline void release(int t, const void* p) { if (!detect) return; Sync* s = syncOf(p); for (int i = 0; i < T; i++) s->v[i] = std::max(s->v[i], vc[t][i]); vc[t][t]++; }
inline void name(void* pc, char* o, size_t n) {
  Dl_info d; if (!dladdr(pc, &d) || !d.dli_sname) { snprintf(o, n, "?"); return; }
  int st; char* x = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); snprintf(o, n, "%s", x ? x : d.dli_sname); free(x);
}
// true if another client has touched the same memory
inline bool touch(int t, uintptr_t a, unsigned n, bool write, void* pc) {
  bool common = false; accesses++;
  while (n) {
    unsigned off = a & 7, k = std::min(n, 8 - off); unsigned char m = (unsigned char)(((1u << k) - 1) << off); Cell& c = page(a >> 12, true)->c[(a & 4095) >> 3];
    for (int u = 0; u < T; u++) {
      if (u == t || !(c.w[u] | c.r[u])) continue;
      common = true; bool bad = ((c.wm[u] & m) && c.w[u] > vc[t][u]) || (write && (c.rm[u] & m) && c.r[u] > vc[t][u]);
      if (bad) { races++; if (!found) { found = true; char b[400]; name(pc, b, sizeof b); snprintf(what, sizeof what, "client %d %s memory that client %d %s, with nothing ordering the two, in %s", t, write ? "writes" : "reads", u, (c.wm[u] & m) && c.w[u] > vc[t][u] ? "wrote" : "read", b); } }
    }
    clk now = vc[t][t];
    if (write) { c.wm[t] = c.w[t] == now ? c.wm[t] | m : m; c.w[t] = now; } else { c.rm[t] = c.r[t] == now ? c.rm[t] | m : m; c.r[t] = now; }
    a += k; n -= k;
  }
  return common;
}
} // namespace race
extern "C" {
typedef unsigned char u8_; typedef unsigned short u16_; typedef unsigned u32_; typedef unsigned long u64_; typedef unsigned __int128 u128_;
NOI void __tsan_init() {} NOI void __tsan_func_entry(void*) { sched::pass(false); } NOI void __tsan_func_exit() {}
#define ACC(n) NOI void __tsan_read##n(void* p) { sched::access(p, n, false, __builtin_return_address(0)); } NOI void __tsan_write##n(void* p) { sched::access(p, n, true, __builtin_return_address(0)); } \
  NOI void __tsan_unaligned_read##n(void* p) { sched::access(p, n, false, __builtin_return_address(0)); } NOI void __tsan_unaligned_write##n(void* p) { sched::access(p, n, true, __builtin_return_address(0)); } \
  NOI void __tsan_volatile_read##n(void* p) { sched::access(p, n, false, __builtin_return_address(0)); } NOI void __tsan_volatile_write##n(void* p) { sched::access(p, n, true, __builtin_return_address(0)); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
NOI void __tsan_read_range(void* p, unsigned long n) { sched::access(p, (unsigned)n, false, __builtin_return_address(0)); }
NOI void __tsan_write_range(void* p, unsigned long n) { sched::access(p, (unsigned)n, true, __builtin_return_address(0)); }
NOI void __tsan_vptr_update(void* p, void*) { sched::access(p, 8, true, __builtin_return_address(0)); }
NOI void __tsan_vptr_read(void* p) { sched::access(p, 8, false, __builtin_return_address(0)); }
#define AT(b, t) \
  NOI t __tsan_atomic##b##_load(const volatile t* p, int) { sched::atomicOp((void*)p, true, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  NOI void __tsan_atomic##b##_store(volatile t* p, t v, int) { sched::atomicOp((void*)p, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  NOI t __tsan_atomic##b##_exchange(volatile t* p, t v, int) { sched::atomicOp((void*)p, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  NOI t __tsan_atomic##b##_fetch_add(volatile t* p, t v, int) { sched::atomicOp((void*)p, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  NOI t __tsan_atomic##b##_fetch_sub(volatile t* p, t v, int) { sched::atomicOp((void*)p, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  NOI t __tsan_atomic##b##_fetch_and(volatile t* p, t v, int) { sched::atomicOp((void*)p, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  NOI t __tsan_atomic##b##_fetch_or(volatile t* p, t v, int) { sched::atomicOp((void*)p, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  NOI t __tsan_atomic##b##_fetch_xor(volatile t* p, t v, int) { sched::atomicOp((void*)p, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  NOI t __tsan_atomic##b##_fetch_nand(volatile t* p, t v, int) { sched::atomicOp((void*)p, true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  NOI int __tsan_atomic##b##_compare_exchange_strong(volatile t* p, t* c, t v, int, int) { sched::atomicOp((void*)p, true, true); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  NOI int __tsan_atomic##b##_compare_exchange_weak(volatile t* p, t* c, t v, int, int) { sched::atomicOp((void*)p, true, true); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  NOI t __tsan_atomic##b##_compare_exchange_val(volatile t* p, t c, t v, int, int) { sched::atomicOp((void*)p, true, true); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, u8_) AT(16, u16_) AT(32, u32_) AT(64, u64_)
NOI void __tsan_atomic_thread_fence(int) {} NOI void __tsan_atomic_signal_fence(int) {}
void __libc_free(void*); void* __libc_realloc(void*, size_t);
NOI void free(void* p) { race::forget(p); __libc_free(p); }
NOI void* realloc(void* p, size_t n) { race::forget(p); return __libc_realloc(p, n); }
} // extern "C"
