// C43: several threads use the library at the same time, each on objects of
// its own and all on the same constant inputs. Every result must be the one
// obtained alone; the race detectors watch every access.
#include "c43_progs.h"
#include "conc.h"
#include "gen.h"

#include <fstream>
#include <thread>

namespace {
using namespace c43;
shared_t make_shared_inputs(vf::rng& r, bool with_file) {
  shared_t s;
  s.text = gen::bytes(r, r.below(120), "ab, \n\r\n,\"", 95);
  s.csv = "x,b,a,c\n";
  for (auto k = r.below(6); k; --k) s.csv += gen::word(r) + ",\"" + gen::word(r) + "\"\"q\"," + std::to_string(r.range(-500, 500)) + "," + std::to_string(r.below(90)) + ".25\n";
  s.a = gen::sorted_keys(r, r.below(14));
  s.b = gen::sorted_keys(r, r.below(14));
  for (auto k = r.below(14); k; --k) s.raw.push_back(static_cast<int>(r.below(50)));
  for (auto k = r.below(8); k; --k) s.words.push_back(gen::word(r, 30));
  for (auto& w : s.words) s.dict[w] = static_cast<int>(w.size());
  if (with_file) {
    auto const* w = std::getenv("VF_WORKDIR");
    s.path = std::string{w ? w : "."} + "/shared.txt";
    std::ofstream{s.path, std::ios::binary} << s.text;
  }
  return s;
}
prog const& at(std::size_t i) { return i < n_parsers ? parsers[i] : algorithms[i - n_parsers]; }

void go(vf::ctx& c, std::size_t from, std::size_t n, bool together, bool first_use = false) {
  conc::quiet_clog();
  auto const with_file = c.r.chance(1, 3);
  auto const s = make_shared_inputs(c.r, with_file);
  auto const threads = 2 + c.r.below(3);
  auto const one = from + c.r.below(n);  // all threads in the same function
  struct step { std::size_t p; std::uint64_t seed; };
  std::vector<std::vector<step>> plan(threads);
  auto const base = c.r.next();
  for (auto& p : plan) for (auto k = 1 + c.r.below(3); k; --k) p.push_back({together ? one : from + c.r.below(n), c.r.chance(1, 3) ? base : c.r.next()});
  std::vector<std::vector<std::uint64_t>> got(threads), want(threads);
  auto run = [&](std::size_t t, std::vector<std::uint64_t>& o) {
    for (auto const& x : plan[t]) {
      vf::rng r{x.seed};
      hash h;
      at(x.p).fn(r, s, h);
      o.push_back(h.h);
    }
  };
  auto const before = c.r.chance(1, 2) && !first_use;
  if (before) for (std::size_t t = 0; t < threads; ++t) run(t, want[t]);
  std::string failed;
  auto cfg = conc::draw(c, true);
  cfg.spurious = 0;
  conc::session(c, cfg, [&] {
    std::vector<std::thread> ts;
    std::vector<std::string> err(threads);
    for (std::size_t t = 0; t < threads; ++t) ts.emplace_back([&, t] {
      try { run(t, got[t]); } catch (std::exception const& e) { err[t] = e.what(); }
    });
    for (auto& t : ts) t.join();
    for (auto& e : err) if (!e.empty()) failed = e;
  });
  CHECK(failed.empty(), "exception", failed);
  if (!before) for (std::size_t t = 0; t < threads; ++t) run(t, want[t]);
  std::size_t steps = 0;
  for (std::size_t t = 0; t < threads; ++t) {
    CHECK_EQ(want[t].size(), got[t].size(), "steps");
    for (std::size_t i = 0; i < want[t].size(); ++i) { CHECK_EQ(want[t][i], got[t][i], std::string{"result/"} + at(plan[t][i].p).name, "thread ", t, " of ", threads); ++steps; }
  }
  c.count("programs", steps);
  c.count("runs");
  if (together) c.count("same-function-runs");
  if (with_file) { ::unlink(s.path.c_str()); c.count("shared-file-runs"); }
  if (c.want_sample(2)) c.sample(vf::cat(threads, " threads, ", steps, " programs, first: ", at(plan[0][0].p).name));
}
}  // namespace

// the first use in the process is the simultaneous one (comes before all other
// scenarios: nothing was used yet when the process is forked)
SCENARIO(first_use, 600, 12000) {
  vf::in_fresh_process(c, [&] { go(c, 0, c43::n_parsers + c43::n_algorithms, !c.r.chance(1, 5), true); });
}
SCENARIO(same_function, 1500, 60000) { go(c, 0, c43::n_parsers + c43::n_algorithms, true); }
SCENARIO(mixed, 1500, 60000) { go(c, 0, c43::n_parsers + c43::n_algorithms, false); }
