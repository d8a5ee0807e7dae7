#define VF_NO_MAIN
#include "c33_pipes.h"
using namespace c33;
SCENARIO(iota, 1200, 50000) {
  int const from = static_cast<int>(c.r.range(-20, 20)) + 20, to = from + static_cast<int>(c.r.range(-3, static_cast<int>(some_size(c))));
  std::vector<int> s;
  for (int i = from; i < to; ++i) s.push_back(i);
  any<int>(c, [&] { return utl::iota(from, to); }, s, "iota");
  auto const u = utl::iota(std::size_t{0}, s.size()) | utl::transform([&](std::size_t i) { return s[i]; }) | utl::vec();
  CHECK_EQ(s, u, "iota-size_t");
  std::vector<long long> w;
  for (long long i = -5; i < 9; ++i) w.push_back(i);
  CHECK_EQ(w, (utl::iota(-5LL, 9LL) | utl::vec()), "iota-negative");
}
// stateful endless source, always bounded by a take_while
SCENARIO(generate, 1500, 50000) {
  auto const s = source_values(c, 1 + some_size(c));
  std::size_t calls = 0;
  auto gen_ = [&] { return calls < s.size() ? s[calls++] : (++calls, 1000000); };
  params ps;
  for (auto& p : ps) p = {static_cast<int>(c.r.below(16)), static_cast<int>(c.r.below(16)), static_cast<unsigned>(c.r.below(1000))};
  auto stop = [](int x) { return x != 1000000; };
  auto go = [&](auto mk, std::string const& ops, char const* name) {
    calls = 0;
    auto const got = mk() | utl::vec();
    check_seq(c, eager(s, ops, ps), got, std::string("generate|") + name, s);
    CHECK(calls <= s.size() + 1, std::string("generator-overrun|") + name, "calls ", calls, " for ", s.size(), " elements");
  };
  auto base = [&] { return utl::generate(gen_) | utl::take_while(stop); };
  go(base, "", "");
  go([&] { return chain<int, 0, 'T'>::go(base(), ps); }, "T", "T");
  go([&] { return chain<int, 0, 'R'>::go(base(), ps); }, "R", "R");
  go([&] { return chain<int, 0, 'W'>::go(base(), ps); }, "W", "W");
  go([&] { return chain<int, 0, 'U'>::go(base(), ps); }, "U", "U");
  go([&] { return chain<int, 0, 'R', 'T'>::go(base(), ps); }, "RT", "RT");
  go([&] { return chain<int, 0, 'U', 'R'>::go(base(), ps); }, "UR", "UR");
  go([&] { return chain<int, 0, 'W', 'R'>::go(base(), ps); }, "WR", "WR");
  go([&] { return chain<int, 0, 'T', 'U', 'R'>::go(base(), ps); }, "TUR", "TUR");
  // adaptors before the bound
  go([&] { return utl::generate(gen_) | utl::transform([](int x) { return x == 1000000 ? x : x + 1; }) | utl::take_while(stop) | utl::transform([](int x) { return x - 1; }); }, "", "T-W");
  go([&] { return utl::generate(gen_) | utl::remove_if([&](int x) { return x != 1000000 && fR(x, ps[0]); }) | utl::take_while(stop); }, "R", "R-W");
  go([&] { return utl::generate(gen_) | utl::unique() | utl::take_while(stop); }, "U", "U-W");
  // an owned (moved-in) generator
  auto k = std::make_unique<std::size_t>(0);
  auto const owned = utl::generate([&s, k = std::move(k)]() mutable { return *k < s.size() ? s[(*k)++] : 1000000; });
  (void)owned;
  std::size_t n = 0;
  auto f = utl::generate([&] { return static_cast<int>(n++); }) | utl::find([](int x) { return x * x > 200; });
  CHECK(f.has_value() && *f == 15 && n == 16, "generate-find", n);
  c.distinct(vf::hcomb(s.size(), ps[0].k));
}
SCENARIO(init_list, 300, 3000) {
  params ps;
  for (auto& p : ps) p = {static_cast<int>(c.r.below(16)), static_cast<int>(c.r.below(16)), static_cast<unsigned>(c.r.below(1000))};
  int const a = static_cast<int>(c.r.below(9)), b = static_cast<int>(c.r.below(9)), d = static_cast<int>(c.r.below(9));
  std::vector<int> const s{a, b, d, a, a, b};
  CHECK_EQ(s, (utl::all({a, b, d, a, a, b}) | utl::vec()), "init-list");
  CHECK_EQ(eager(s, "U", ps), (utl::all({a, b, d, a, a, b}) | utl::unique() | utl::vec()), "init-list-unique");
  CHECK_EQ(eager(s, "TR", ps), (utl::all({a, b, d, a, a, b}) | utl::transform([&](int x) { return fT(x, ps[0]); }) | utl::remove_if([&](int x) { return fR(x, ps[1]); }) | utl::vec()), "init-list-chain");
  c.count("pipelines", 3);
}
