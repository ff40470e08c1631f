// Allocator seam of the simulator: every operator new/delete of the process goes through here. While a thread is
// armed, the simulator decides the content of fresh memory, which allocation fails and where a thread is preempted.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <vector>
namespace hook {
struct State {
  bool armed = false; int fill = 0xA5;             // -1: leave memory alone; 0..255: byte; 256: pseudo-random; 257: words other objects may have left behind
  uint64_t rnd = 88172645463325252ull; long long n = 0, live = 0, bytes = 0, failAt = -1, failCount = 0, fired = 0, peak = 0;
  std::vector<uint32_t>* sites = nullptr;           // where the allocations came from, when somebody wants to know
  long long budget = -1;                            // armed bytes allowed in one call (a runaway allocation is a finding)
};
extern thread_local State st;
extern long long stale[8];                      // the words for fill 257: times, small numbers, signal strengths
extern void (*yieldPoint)();
// Everything outside the process the code could ask: clocks, sleeping, randomness. Code under test (armed threads) sees
// a simulated one, set up from a seed; nothing in the repository asks today, and no answer may depend on it.
void envStart(uint64_t seed);
extern long long envReads;
extern thread_local long long section;          // one more with every call into the code under test
struct Arm { Arm() { st.armed = true; section++; } ~Arm() { st.armed = false; } };
}
