// C45: whatever the library calls (functions, comparators, stream operators,
// generator bodies, loop bodies) may use the library itself, the very function
// that is running included, on other objects. The programs are those of C43;
// every hook inside them may run further programs, and every result, inner or
// outer, must be the one obtained on its own.
#include "c43_progs.h"
#include "gen.h"

#include <fstream>
#include <iostream>

namespace {
using namespace c43;
prog const& at(std::size_t i) { return i < n_parsers ? parsers[i] : algorithms[i - n_parsers]; }
std::size_t const& total() { static std::size_t const n = n_parsers + n_algorithms; return n; }

shared_t inputs(vf::rng& r, bool with_file) {
  shared_t s;
  s.text = gen::bytes(r, r.below(120), "ab, \n\r\n,\"", 95);
  s.csv = "x,b,a,c\n";
  for (auto k = r.below(6); k; --k) s.csv += gen::word(r) + ",\"" + gen::word(r) + "\"\"q\"," + std::to_string(r.range(-500, 500)) + "," + std::to_string(r.below(90)) + ".25\n";
  s.a = gen::sorted_keys(r, r.below(14));
  s.b = gen::sorted_keys(r, r.below(14));
  for (auto k = r.below(14); k; --k) s.raw.push_back(static_cast<int>(r.below(50)));
  for (auto k = r.below(8); k; --k) s.words.push_back(gen::word(r, 30));
  for (auto& w : s.words) s.dict[w] = static_cast<int>(w.size());
  if (with_file) {
    auto const* w = std::getenv("VF_WORKDIR");
    s.path = std::string{w ? w : "."} + "/inputs.txt";
    std::ofstream{s.path, std::ios::binary} << s.text;
  }
  return s;
}

struct job { std::size_t p; std::uint64_t seed; std::uint64_t want; };
struct plan_t {
  shared_t const* s = nullptr;
  std::vector<job> jobs;  // inner programs with the results they have alone
  vf::rng r{1};
  unsigned depth = 0, max_depth = 1, left = 0, hooks = 0, ran = 0, deep = 0;
  unsigned per_mille = 100;
  std::string wrong;
} pl;

std::uint64_t run(std::size_t p, std::uint64_t seed) {
  vf::rng r{seed};
  hash h;
  at(p).fn(r, *pl.s, h);
  return h.h;
}
void hook() {
  ++pl.hooks;
  if (pl.left == 0 || pl.depth >= pl.max_depth || pl.r.below(1000) >= pl.per_mille) return;
  --pl.left;
  ++pl.depth;
  pl.deep = std::max(pl.deep, pl.depth);
  auto const& j = pl.jobs[pl.r.below(pl.jobs.size())];
  auto const got = run(j.p, j.seed);
  ++pl.ran;
  if (got != j.want && pl.wrong.empty()) pl.wrong = std::string{at(j.p).name} + " at depth " + std::to_string(pl.depth);
  --pl.depth;
}

void go(vf::ctx& c, std::size_t outer, bool same) {
  struct null_buf : std::streambuf { int overflow(int ch) override { return ch; } };
  static null_buf quiet;
  std::clog.rdbuf(&quiet);
  auto const with_file = c.r.chance(1, 3);
  auto const s = inputs(c.r, with_file);
  pl = {};
  pl.s = &s;
  pl.r = vf::rng{c.r.next()};
  inside = nullptr;
  auto const seed = c.r.next();
  for (auto k = 1 + c.r.below(4); k; --k) {
    job j{same || c.r.chance(1, 3) ? outer : c.r.below(total()), c.r.chance(1, 5) ? seed : c.r.next(), 0};
    j.want = run(j.p, j.seed);
    pl.jobs.push_back(j);
  }
  auto const want = run(outer, seed);
  pl.left = static_cast<unsigned>(1 + c.r.below(10));
  pl.max_depth = static_cast<unsigned>(1 + c.r.below(3));
  pl.per_mille = c.r.pick({30u, 100u, 300u, 1000u});
  inside = hook;
  std::uint64_t got = 0;
  std::string failed;
  try { got = run(outer, seed); } catch (std::exception const& e) { failed = e.what(); }
  inside = nullptr;
  CHECK(failed.empty(), std::string{"exception/"} + at(outer).name, failed);
  CHECK(pl.wrong.empty(), "inner/" + pl.wrong, "inside ", at(outer).name);
  CHECK_EQ(want, got, std::string{"outer/"} + at(outer).name, "around ", pl.ran, " others, the first of them ", at(pl.jobs[0].p).name);
  CHECK_EQ(want, run(outer, seed), std::string{"afterwards/"} + at(outer).name);
  c.count("outer-programs");
  c.count("inner-programs", pl.ran);
  c.count("hooks", pl.hooks);
  if (pl.deep > 1) c.count("deeper-than-one");
  if (with_file) { ::unlink(s.path.c_str()); c.count("with-file"); }
  if (pl.ran) c.distinct(vf::hcomb(vf::hcomb(outer, pl.ran), pl.hooks));
  if (c.want_sample(2)) c.sample(vf::cat(at(outer).name, " with ", pl.ran, " programs inside, depth ", pl.deep, ", ", pl.hooks, " hooks passed"));
}
}  // namespace

SCENARIO(in_itself, 3000, 90000) { go(c, c.idx % total(), true); }
SCENARIO(mixed, 3000, 90000) { go(c, c.idx % total(), false); }
