// vfsched.h with real threads: nothing is controlled, point()/pause() inject
// random delays. For the ASan and ThreadSanitizer builds.
#include "vfsched.h"

#include <time.h>

#include <atomic>
#include <mutex>
#include <thread>

namespace {
std::atomic<unsigned> hc_value{2};
std::atomic<int> next_tid{0};
std::atomic<std::uint64_t> epoch{1}, points{0}, seed{1};
thread_local int my_tid = -1;
thread_local std::uint64_t my_epoch = 0, my_rng = 0;
std::mutex& log_mutex() { static auto* m = new std::mutex; return *m; }
std::vector<vfs::event>& the_log() { static auto* v = new std::vector<vfs::event>; return *v; }
void enter() {
  auto const e = epoch.load(std::memory_order_relaxed);
  if (my_epoch != e) {
    my_epoch = e;
    my_tid = next_tid.fetch_add(1, std::memory_order_relaxed);
    my_rng = seed.load(std::memory_order_relaxed) * 31U + static_cast<unsigned>(my_tid) + 1U;
  }
}
std::uint64_t rnd() {
  enter();
  my_rng = my_rng * 6364136223846793005ULL + 1442695040888963407ULL;
  return my_rng >> 33;
}
void sleep_ns(long n) {
  timespec t{0, n};
  nanosleep(&t, nullptr);
}
}  // namespace

unsigned std::thread::hardware_concurrency() noexcept { return hc_value.load(std::memory_order_relaxed); }

namespace vfs {
void begin(config const& c) {
  hc_value.store(c.hc, std::memory_order_relaxed);
  seed.store(c.seed, std::memory_order_relaxed);
  next_tid.store(0, std::memory_order_relaxed);
  points.store(0, std::memory_order_relaxed);
  epoch.fetch_add(1, std::memory_order_relaxed);
  enter();
}
stats end() {
  stats s;
  s.steps = points.load(std::memory_order_relaxed);
  s.created = static_cast<unsigned>(next_tid.load(std::memory_order_relaxed)) - 1U;
  s.hash = seed.load(std::memory_order_relaxed);
  return s;
}
unsigned live() { return 0; }
int tid() { enter(); return my_tid; }
bool controlled() { return false; }
void set_hc(unsigned n) { hc_value.store(n, std::memory_order_relaxed); }
void point() {
  points.fetch_add(1, std::memory_order_relaxed);
  switch (rnd() % 16) {
    case 0: std::this_thread::yield(); break;
    case 1: sleep_ns(1000); break;
    case 2: for (auto n = rnd() % 500; n != 0; --n) { __asm__ volatile("" ::: "memory"); } break;
    default: break;
  }
}
void pause() {
  points.fetch_add(1, std::memory_order_relaxed);
  if (rnd() % 4 == 0) sleep_ns(static_cast<long>(rnd() % 30000)); else std::this_thread::yield();
}
void log(int what, std::int64_t a, std::int64_t b) {
  std::lock_guard<std::mutex> l{log_mutex()};
  the_log().push_back({what, a, b, tid()});
}
std::vector<event> take_log() {
  std::lock_guard<std::mutex> l{log_mutex()};
  return std::move(the_log());
}
}  // namespace vfs
