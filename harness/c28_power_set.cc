#include "gen.h"
#include "utl/power_set_intersection.h"

using gen::rec;

namespace {
template <typename C, typename Lt, typename... L>
void drive(vf::ctx& c, C const& a, C const& b, Lt lt, L... maybe_lt) {
  std::map<void const*, std::size_t> pa, pb;
  std::size_t i = 0;
  for (auto const& x : a) pa[&x] = i++;
  i = 0;
  for (auto const& x : b) pb[&x] = i++;
  std::map<std::pair<std::size_t, std::size_t>, int> want;
  std::size_t total = 0;
  {
    std::size_t x = 0;
    for (auto const& ea : a) { std::size_t y = 0; for (auto const& eb : b) { if (!lt(ea, eb) && !lt(eb, ea)) { want[{x, y}] = 1; ++total; } ++y; } ++x; }
  }
  for (int form = 0; form < 2; ++form) {
    std::map<std::pair<std::size_t, std::size_t>, int> got;
    std::size_t calls = 0;
    auto fn = [&](auto const& x, auto const& y) {
      ++calls;
      auto ix = pa.find(&x);
      auto iy = pb.find(&y);
      if (ix == pa.end() || iy == pb.end()) { c.violate("order-or-identity", vf::cat("reported ", x, ",", y, " form ", form)); return; }
      ++got[{ix->second, iy->second}];
    };
    if (form == 0) utl::power_set_intersection(a, b, fn, maybe_lt...);
    else utl::power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), fn, maybe_lt...);
    CHECK(!c.failed, "stop");
    CHECK(calls == total, "pair-count", "want ", total, " got ", calls, " form ", form);
    CHECK(got == want, "pair-set", "form ", form);
    c.count("pairs", calls);
    c.count("runs");
  }
}

template <typename C>
C mk(std::vector<int> const& k) {
  std::vector<rec> v;
  int id = 0;
  for (auto x : k) v.push_back({x, id++});
  return C(v.begin(), v.end());
}

void one(vf::ctx& c, std::vector<int> ka, std::vector<int> kb) {
  std::uint64_t h = vf::hcomb(ka.size(), kb.size());
  bool common = false;
  for (auto k : ka) { h = vf::hcomb(h, static_cast<unsigned>(k)); common = common || std::binary_search(kb.begin(), kb.end(), k); }
  for (auto k : kb) h = vf::hcomb(h, 77u + static_cast<unsigned>(k));
  if (common) c.distinct(h);
  if (c.want_sample()) c.sample(vf::cat("a=", ka, " b=", kb));
  auto const asc = [](auto const& x, auto const& y) { return x < y; };
  switch (c.r.below(6)) {
    case 0: drive(c, mk<std::vector<rec>>(ka), mk<std::vector<rec>>(kb), asc); break;
#ifndef VF_LEAN
    case 1: drive(c, mk<std::list<rec>>(ka), mk<std::list<rec>>(kb), asc); break;
    case 2: drive(c, mk<std::forward_list<rec>>(ka), mk<std::forward_list<rec>>(kb), asc, asc); break;
#endif
    case 3: {
      std::reverse(ka.begin(), ka.end()); std::reverse(kb.begin(), kb.end());
      auto dsc = [](auto const& x, auto const& y) { return x.key > y.key; };
      drive(c, mk<std::deque<rec>>(ka), mk<std::deque<rec>>(kb), dsc, dsc); break; }
    case 4: {
      // coarse equivalence: same bucket of 4 keys
      auto bucket = [](auto const& x, auto const& y) { return (static_cast<std::int64_t>(x.key) >> 2) < (static_cast<std::int64_t>(y.key) >> 2); };
      drive(c, mk<std::vector<rec>>(ka), mk<std::vector<rec>>(kb), bucket, bucket); break; }
    default: {
      std::vector<std::string> a, b;
      for (auto k : ka) a.push_back(std::to_string(k));
      for (auto k : kb) b.push_back(std::to_string(k));
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      drive(c, a, b, asc); break; }
  }
}
}  // namespace

SCENARIO(random, 6000, 150000) {
  auto ka = gen::sorted_keys(c.r, c.r.size(40));
  auto kb = c.r.chance(1, 3) ? ka : gen::sorted_keys(c.r, c.r.size(40));
  one(c, ka, kb);
}
SCENARIO(exhaustive, 4096, 4096) {  // 3 keys, up to 3 copies, both sides
  auto x = c.idx;
  std::vector<int> ka, kb;
  for (int k = 0; k < 3; ++k) { for (std::uint64_t j = 0; j < x % 4; ++j) ka.push_back(k); x /= 4; }
  for (int k = 0; k < 3; ++k) { for (std::uint64_t j = 0; j < x % 4; ++j) kb.push_back(k); x /= 4; }
  one(c, ka, kb);
}
SCENARIO(long_runs, 60, 600) {  // runs far longer than small counters
  auto const n = c.r.pick({120u, 255u, 256u, 257u, 300u});
  auto const m = c.r.pick({1u, 2u, 255u, 256u, 260u});
  std::vector<int> ka(3, -5), kb(2, -5);
  ka.insert(ka.end(), n, 4); kb.insert(kb.end(), m, 4);
  for (auto e = c.r.below(4); e; --e) { ka.push_back(9); kb.push_back(c.r.chance(1, 2) ? 9 : 10); }
  std::sort(kb.begin(), kb.end());
  if (c.r.chance(1, 2)) std::swap(ka, kb);
  one(c, ka, kb);
}
// long ranges: O(n^2) oracle replaced by key counting
SCENARIO(wide, 12, 120) {
  auto const n = c.r.pick({4096u, 65535u, 65537u, 70000u});
  std::vector<int> a, b;
  for (unsigned i = 0; i < n; ++i) { a.push_back(static_cast<int>(c.r.below(n))); b.push_back(static_cast<int>(c.r.below(n))); }
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  std::map<int, std::uint64_t> ca, cb, got;
  for (auto x : a) ++ca[x];
  for (auto x : b) ++cb[x];
  bool order = true;
  utl::power_set_intersection(a, b, [&](int const& x, int const& y) {
    ++got[x];
    order = order && x == y && &x >= a.data() && &x < a.data() + a.size() && &y >= b.data() && &y < b.data() + b.size();
  });
  std::map<int, std::uint64_t> want;
  for (auto [k, v] : ca) if (cb.count(k)) want[k] = v * cb[k];
  CHECK(order, "wide/order");
  CHECK(got == want, "wide/counts");
  c.distinct(vf::hcomb(n, c.idx));
  c.count("runs");
}
SCENARIO(one_against_many, 8, 60) {  // a run longer than 16 bit counters
  auto const n = c.r.pick({65535u, 65536u, 65537u, 70001u, 140000u});
  auto const m = 1 + c.r.below(3);
  std::vector<int> a{-7, -7}, b{-9, -7};
  a.insert(a.end(), n, 4); b.insert(b.end(), m, 4);
  a.push_back(8); b.push_back(8);
  if (c.r.chance(1, 2)) std::swap(a, b);
  auto const in = [](std::vector<int> const& v, int const& x) { return static_cast<std::size_t>(&x - v.data()); };
  std::vector<unsigned char> ha(a.size()), hb(b.size());
  std::uint64_t pairs = 0;
  utl::power_set_intersection(a, b, [&](int const& x, int const& y) {
    auto const i = in(a, x), j = in(b, y);
    CHECK(i < a.size() && j < b.size() && x == y, "one_against_many/pair", i, " ", j);
    ++ha[i]; ++hb[j]; ++pairs;
  });
  auto const pa = static_cast<std::uint64_t>(std::count(a.begin(), a.end(), 4)), pb = static_cast<std::uint64_t>(std::count(b.begin(), b.end(), 4));
  CHECK_EQ(pa * pb + 2 + 1, pairs, "one_against_many/pairs");
  for (std::size_t i = 0; i < a.size(); ++i) if (a[i] == 4) CHECK_EQ(static_cast<unsigned>(pb % 256), static_cast<unsigned>(ha[i]), "one_against_many/partners of the first");
  for (std::size_t i = 0; i < b.size(); ++i) if (b[i] == 4) CHECK_EQ(static_cast<unsigned>(pa % 256), static_cast<unsigned>(hb[i]), "one_against_many/partners of the second");
  c.distinct(vf::hcomb(n, m));
  c.count("pairs", pairs);
}
