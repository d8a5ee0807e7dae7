// Controlled execution of multi-threaded code. Two implementations:
//  sched_rt.cc - every thread is serialised; at each synchronisation operation
//                a seeded strategy picks who runs next; deadlocks, leftover
//                threads and (optionally) data races are detected exactly;
//  real_rt.cc  - real threads, random delays (for the ASan/TSan builds).
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace vfs {
struct config {
  std::uint64_t seed = 1;
  unsigned strategy = 0;  // see sched_rt.cc
  unsigned hc = 2;        // std::thread::hardware_concurrency()
  unsigned spurious = 0;  // percent chance of a spurious wake-up per decision
  bool races = false;
  unsigned mem_points = 0;  // switch at one in so many plain memory accesses
  std::uint64_t max_steps = 400000;
};
struct stats {
  std::uint64_t steps = 0, switches = 0, hash = 0, accesses = 0, atomics = 0, locks = 0, waits = 0, spurious = 0;
  unsigned created = 0, live = 0;
};
void begin(config const&);
stats end();
unsigned live();    // threads created in the session that have not ended
int tid();          // 0 = the thread that called begin
void point();       // give others a chance to run here
void pause();       // like point, but lets others run for a while
bool controlled();  // serialised?
void set_hc(unsigned);

// Totally ordered event log; recording neither synchronises nor is a
// scheduling point in the controlled implementation.
struct event {
  int what;
  std::int64_t a, b;
  int tid;
};
void log(int what, std::int64_t a = 0, std::int64_t b = 0);
std::vector<event> take_log();
}  // namespace vfs
