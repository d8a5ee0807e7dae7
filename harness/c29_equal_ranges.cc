#define GEN_EQ_BY_KEY
#include "gen.h"
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"

using gen::rec;

namespace {
std::vector<std::pair<int, int>> ids(auto const& v) {
  std::vector<std::pair<int, int>> o;
  for (auto const& x : v) o.emplace_back(x.key, x.id);
  return o;
}
std::vector<rec> mk(std::vector<int> const& k) {
  std::vector<rec> v;
  int id = 0;
  for (auto x : k) v.push_back({x, id++});
  return v;
}

template <typename C, typename Lt, typename... L>
void sorted_form(vf::ctx& c, std::vector<rec> const& src, Lt lt, L... l) {
  C v(src.begin(), src.end());
  auto before = ids(v);
  std::vector<std::pair<std::size_t, std::size_t>> runs;
  std::vector<rec> seen;
  utl::equal_ranges(v, l..., [&](auto lo, auto hi) {
    runs.emplace_back(std::distance(v.begin(), lo), std::distance(v.begin(), hi));
    seen.insert(seen.end(), lo, hi);
  });
  CHECK(std::is_sorted(v.begin(), v.end(), lt), "sorted/not-sorted", "src=", src);
  auto after = ids(v);
  auto sb = before, sa = after;
  std::sort(sb.begin(), sb.end()); std::sort(sa.begin(), sa.end());
  CHECK(sb == sa, "sorted/elements-changed", "src=", src);
  std::vector<std::pair<std::size_t, std::size_t>> want;
  std::size_t i = 0;
  while (i < v.size()) {
    auto j = i;
    while (j < v.size() && !lt(v[i], v[j]) && !lt(v[j], v[i])) ++j;
    want.emplace_back(i, j);
    i = j;
  }
  CHECK_EQ(want, runs, "sorted/runs");
  CHECK(ids(seen) == after, "sorted/reported-elements");
  c.count("ranges", runs.size());
}

template <typename C, typename Eq, typename... E>
void linear_form(vf::ctx& c, std::vector<rec> const& src, Eq eq, E... e) {
  C v(src.begin(), src.end());
  std::vector<std::pair<std::size_t, std::size_t>> want;
  std::size_t i = 0;
  while (i < src.size()) {
    auto j = i;
    while (j < src.size() && eq(src[i], src[j])) ++j;
    want.emplace_back(i, j);
    i = j;
  }
  auto run = [&](auto& cont, char const* form, auto&& call) {
    std::vector<std::pair<std::size_t, std::size_t>> got;
    call([&](auto lo, auto hi) {
      got.emplace_back(std::distance(std::begin(cont), lo), std::distance(std::begin(cont), hi));
    });
    CHECK_EQ(want, got, std::string("linear/runs/") + form);
    c.count("ranges", got.size());
  };
  run(v, "container", [&](auto f) { utl::equal_ranges_linear(v, e..., f); });
  run(v, "iterators", [&](auto f) { utl::equal_ranges_linear(v.begin(), v.end(), e..., f); });
  C const& cv = v;
  run(cv, "const", [&](auto f) { utl::equal_ranges_linear(cv, e..., f); });
  CHECK(ids(v) == ids(src), "linear/modified");
}

struct fine : rec {  // equality is finer than the order
  fine() = default;
  fine(rec const& r) : rec(r) {}
  friend bool operator==(fine const& a, fine const& b) { return a.key == b.key && a.id == b.id; }
};
void one(vf::ctx& c, std::vector<int> const& k) {
  auto const src = mk(k);
  if (k.size() > 1) { std::uint64_t h = 3; for (auto x : k) h = vf::hcomb(h, static_cast<unsigned>(x)); c.distinct(h); }
  if (c.want_sample()) c.sample(vf::cat(k));
  auto asc = [](rec const& a, rec const& b) { return a.key < b.key; };
  auto dsc = [](rec const& a, rec const& b) { return a.key > b.key; };
  auto mod = [](rec const& a, rec const& b) { return (static_cast<unsigned>(a.key) % 5) < (static_cast<unsigned>(b.key) % 5); };
  auto eqk = [](rec const& a, rec const& b) { return a.key == b.key; };
  auto near_ = [](rec const& a, rec const& b) { return std::abs(static_cast<double>(a.key) - b.key) <= 2; };  // not transitive: relative to the run's first element
  switch (c.r.below(8)) {
    case 6: sorted_form<std::vector<fine>>(c, src, asc); break;
    case 7: sorted_form<std::deque<fine>>(c, src, dsc, dsc); break;
    case 0: sorted_form<std::vector<rec>>(c, src, asc); break;
    case 1: sorted_form<std::deque<rec>>(c, src, asc); break;
    case 2: sorted_form<std::vector<rec>>(c, src, dsc, dsc); break;
    case 3: sorted_form<std::deque<rec>>(c, src, mod, mod); break;
    case 4: sorted_form<std::vector<rec>>(c, src, mod, mod); break;
    default: sorted_form<std::vector<rec>>(c, src, asc, asc); break;
  }
  switch (c.r.below(6)) {
    case 0: linear_form<std::vector<rec>>(c, src, eqk); break;
#ifndef VF_LEAN
    case 1: linear_form<std::list<rec>>(c, src, eqk); break;
    case 2: linear_form<std::forward_list<rec>>(c, src, eqk); break;
#endif
    case 3: linear_form<std::deque<rec>>(c, src, near_, near_); break;
    case 4: linear_form<std::vector<rec>>(c, src, near_, near_); break;
    default: linear_form<std::vector<rec>>(c, src, eqk, eqk); break;
  }
}
}  // namespace

SCENARIO(random, 12000, 300000) { auto n = gen::small_size(c.r); one(c, gen::keys(c.r, n)); }
SCENARIO(runs, 3000, 60000) {
  std::vector<int> k;
  for (auto n = c.r.below(12); n; --n) k.insert(k.end(), 1 + c.r.below(5), static_cast<int>(c.r.range(-3, 3)));
  one(c, k);
}
SCENARIO(exhaustive, 1093, 1093) {  // all strings over 3 keys up to length 6
  std::vector<int> k;
  for (char ch : gen::nth_string(c.idx, "\x01\x02\x03")) k.push_back(ch);
  one(c, k);
}
SCENARIO(large, 16, 120) {
  auto const n = c.r.pick({255u, 257u, 4096u, 65535u, 65537u});
  std::vector<int> k;
  while (k.size() < n) k.insert(k.end(), 1 + c.r.below(c.r.chance(1, 3) ? n : 20), static_cast<int>(c.r.below(50)));
  one(c, k);
}
