#define VF_NO_MAIN
#include "c33_pipes.h"
using namespace c33;
SCENARIO(all_iterators_box, 1200, 50000) {
  auto const s = source_values(c, some_size(c));
  auto v = boxes<box>(s);
  v.emplace(v.begin(), 3); v.emplace_back(5);
  any<box>(c, [&] { return utl::all(v.begin() + 1, v.end() - 1); }, s, "iterators");
  // the range is the one the iterators denoted when it was made
  auto b = v.begin() + 1, e = v.end() - 1;
  auto r = utl::all(b, e);
  ++b; --e;
  if (!s.empty()) CHECK_EQ(s, vals(r | utl::vec()), "range-follows-caller-variables");
  auto const mk = [&](auto x, auto y) { return utl::all(x, y); };  // copies die with the call
  CHECK_EQ(s, vals(mk(v.begin() + 1, v.end() - 1) | utl::transform([](box const& x) { return box{x}; }) | utl::vec()), "returned-range");
}
SCENARIO(holding_box, 1200, 50000) {
  auto const s = source_values(c, some_size(c));
  auto const b = box::live.load();
  {
    any<box>(c, [&] { return utl::all(boxes<box>(s)); }, s, "temporary");
    // one kept owning range as a source of several pipelines
    auto const p = param{3, 5, 7};
    auto r = utl::all(boxes<box>(s));
    for (int i = 0; i < 2; ++i) {
      auto K = [&](char const* k) { return std::string(k) + (i ? "/second" : "/first"); };
      CHECK_EQ(eager(s, "U", {p}), vals(r | utl::unique() | utl::vec()), K("kept-unique"));
      CHECK_EQ(eager(s, "W", {p}), vals(r | utl::take_while([&](box const& x) { return fW(x.v(), p); }) | utl::vec()), K("kept-take_while"));
      CHECK_EQ(eager(s, "R", {p}), vals(r | utl::remove_if([&](box const& x) { return fR(x.v(), p); }) | utl::vec()), K("kept-remove_if"));
      CHECK_EQ(eager(s, "T", {p}), vals(r | utl::transform([&](box const& x) { return box{fT(x.v(), p)}; }) | utl::vec()), K("kept-transform"));
      std::vector<int> got;
      auto it = r | utl::iterable();
      for (auto&& x : it) got.push_back(x.v());
      CHECK_EQ(s, got, K("kept-iterable"));
      CHECK_EQ(s, vals(r | utl::vec()), K("kept-vec"));
      CHECK_EQ(s.size(), r | utl::count([](box const&) { return true; }), K("kept-count"));
    }
    c.count("pipelines", 14);
  }
  CHECK_EQ(b, box::live.load(), "leak");
}
