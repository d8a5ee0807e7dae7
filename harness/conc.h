// Sessions: run multi-threaded code under vfsched.h with configurations drawn
// from the case's generator, and account for what was observed.
#pragma once
#include "vf.h"
#include "vfsched.h"

#include <iostream>
#include <streambuf>

namespace conc {
struct null_buf : std::streambuf {
  int_type overflow(int_type c) override { return traits_type::not_eof(c); }
  std::streamsize xsputn(char const*, std::streamsize n) override { return n; }
};
// log output of the code under test goes nowhere; stateless, so usable by
// several threads at once
inline void quiet_clog() {
  static null_buf b;
  std::clog.rdbuf(&b);
}

inline vfs::config draw(vf::ctx& c, bool races = false) {
  vfs::config f;
  f.seed = c.r.next();
  f.strategy = static_cast<unsigned>(c.r.below(6));
  f.hc = c.r.pick({0U, 1U, 1U, 2U, 2U, 2U, 3U, 3U, 4U, 5U, 8U, 16U});
  if (!races && c.idx % 97 == 31) f.hc = c.r.pick({17U, 31U, 33U, 63U, 64U, 65U, 65U, 100U, 129U});
  f.spurious = c.r.chance(1, 4) ? 20 : 0;
  f.races = races;
  f.mem_points = c.r.chance(1, 2) ? 0 : c.r.pick({6U, 20U, 60U});
  return f;
}

// extra scheduling freedom inside callbacks: 0-3 points, or a long pause
struct jitter {
  std::uint64_t seed;
  void operator()(std::uint64_t x) const {
    auto const h = vf::hcomb(seed, x);
    switch (h % 8) {
      case 0: vfs::pause(); break;
      case 1: case 2: vfs::point(); break;
      case 3: for (int i = 0; i < 4; ++i) vfs::pause(); break;
      default: break;
    }
  }
};

// Runs f between begin and end; leaves the event log for the caller.
template <typename F>
vfs::stats session(vf::ctx& c, vfs::config const& cfg, F&& f) {
  vf::note("hc=" + std::to_string(cfg.hc) + " strategy=" + std::to_string(cfg.strategy));
  (void)vfs::take_log();
  vfs::begin(cfg);
  try {
    f();
  } catch (...) {
    vfs::end();
    c.violate("unexpected-exception", "session body threw");
    throw vf::stop_case{};
  }
  // whatever is still alive gets a chance to show itself
  for (int i = 0; i < 50 && vfs::live() != 0; ++i) vfs::pause();
  auto st = vfs::end();
  c.count("sessions");
  c.count("sched-steps", st.steps);
  c.count("context-switches", st.switches);
  c.count("threads-created", st.created);
  if (st.spurious) c.count("spurious-wakeups", st.spurious);
  if (st.accesses) c.count("memory-accesses", st.accesses);
  c.distinct(vfs::controlled() ? st.hash : vf::hcomb(cfg.seed, c.idx));
  return st;
}

inline std::string show(std::vector<vfs::event> const& l, std::size_t max = 60) {
  std::string s;
  for (auto const& e : l) {
    if (!max--) { s += "..."; break; }
    s += "t" + std::to_string(e.tid) + ":" + std::to_string(e.what) + "(" + std::to_string(e.a);
    if (e.b) s += "," + std::to_string(e.b);
    s += ") ";
  }
  return s;
}
}  // namespace conc

// number of cases of a scenario of long runs: few under the controlled
// scheduler; the driver scales the real-thread binaries down to a twentieth
#ifdef VF_SCHED
#define VF_LONG(sched, real) (sched)
#else
#define VF_LONG(sched, real) ((real) * 20)
#endif

namespace conc {
// per-index counters touched by several threads without being seen by the
// instrumentation (neither synchronisation nor accesses)
struct tallies {
  explicit tallies(std::size_t n) : v(n) {}
  __attribute__((no_sanitize("thread"))) unsigned add(std::size_t i) { return static_cast<unsigned>(__atomic_add_fetch(&v.data()[i], static_cast<unsigned char>(1), __ATOMIC_RELAXED)); }
  __attribute__((no_sanitize("thread"))) unsigned at(std::size_t i) const { return v.data()[i]; }
  std::vector<unsigned char> v;
};
}  // namespace conc
