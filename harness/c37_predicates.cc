#include "gen.h"
#include "utl/for_each_bit_set.h"
#include "utl/helpers/algorithm.h"
#include "utl/is_uniform.h"

namespace {
void note(vf::ctx& c, std::vector<int> const& k, unsigned salt) {
  auto h = vf::hcomb(salt, k.size());
  for (auto x : k) h = vf::hcomb(h, static_cast<unsigned>(x));
  if (!k.empty()) c.distinct(h);
  if (c.want_sample()) c.sample(vf::cat(k));
}
std::vector<int> small(vf::ctx& c) {
  std::vector<int> k;
  if (c.idx < 1100) { auto x = c.idx; std::uint64_t n = 1, len = 0; while (x >= n) { x -= n; n *= 3; ++len; } for (; len; --len) { k.push_back(static_cast<int>(x % 3)); x /= 3; } return k; }
  return gen::keys(c.r, gen::small_size(c.r));
}

template <typename C>
void preds(vf::ctx& c, C col) {
  std::vector<int> const k(col.begin(), col.end());
  C const& cc = col;
  auto const m = static_cast<int>(1 + c.r.below(4));
  auto p = [m](int x) { return (static_cast<unsigned>(x) >> 1) % 4 < static_cast<unsigned>(m) && x % 2 != 1; };
  std::size_t hits = 0;
  for (auto x : k) hits += p(x);
  CHECK_EQ(hits == k.size(), utl::all_of(col, p), "all_of", k);
  CHECK_EQ(hits != 0, utl::any_of(cc, p), "any_of", k);
  CHECK_EQ(hits == 0, utl::none_of(col, p), "none_of", k);
  CHECK_EQ(hits, static_cast<std::size_t>(utl::count_if(cc, p)), "count_if", k);
  CHECK_EQ(hits, static_cast<std::size_t>(utl::count_if(C(col), p)), "count_if-temporary", k);
  std::size_t pos = 0;
  while (pos < k.size() && !p(k[pos])) ++pos;
  CHECK_EQ(static_cast<std::ptrdiff_t>(pos), std::distance(col.begin(), utl::find_if(col, p)), "find_if", k);
  CHECK_EQ(static_cast<std::ptrdiff_t>(pos), std::distance(cc.begin(), utl::find_if(cc, p)), "find_if-const", k);
  int const needle = !k.empty() && c.r.chance(2, 3) ? k[c.r.below(k.size())] : 1;
  pos = 0;
  while (pos < k.size() && k[pos] != needle) ++pos;
  CHECK_EQ(static_cast<std::ptrdiff_t>(pos), std::distance(col.begin(), utl::find(col, needle)), "find", k);
  // extremes: first max / first min under the comparator
  for (int d = 0; d < 2; ++d) {
    auto lt = [d](int a, int b) { return d ? (a > b) : (a / 2 < b / 2); };
    std::size_t mx = 0, mn = 0;
    for (std::size_t i = 1; i < k.size(); ++i) { if (lt(k[mx], k[i])) mx = i; if (lt(k[i], k[mn])) mn = i; }
    CHECK_EQ(static_cast<std::ptrdiff_t>(mx), std::distance(col.begin(), utl::max_element(col, lt)), "max_element", k);
    CHECK_EQ(static_cast<std::ptrdiff_t>(mn), std::distance(cc.begin(), utl::min_element(cc, lt)), "min_element", k);
    bool sorted = true;
    for (std::size_t i = 1; i < k.size(); ++i) sorted = sorted && !lt(k[i], k[i - 1]);
    CHECK_EQ(sorted, utl::is_sorted(col, lt), "is_sorted", k);
  }
  CHECK(std::equal(k.begin(), k.end(), col.begin(), col.end()), "modified", k);
  // equal
  auto other = k;
  switch (c.r.below(6)) {
    case 0: break;
    case 1: if (!other.empty()) other.pop_back(); break;
    case 2: other.push_back(k.empty() ? 0 : k.back()); break;
    case 3: if (!other.empty()) other[c.r.below(other.size())] ^= 1; break;
    case 4: other.clear(); break;
    default: if (!other.empty()) other.erase(other.begin()); break;
  }
  CHECK_EQ(k == other, utl::equal(col, other), "equal", k, " vs ", other);
  CHECK_EQ(k == other, utl::equal(other, cc), "equal-swapped", other, " vs ", k);
  std::list<int> lo(other.begin(), other.end());
  CHECK_EQ(k == other, utl::equal(cc, lo), "equal-list", k, " vs ", other);
  c.count("predicates", 15);
  // mutating ones
  int const val = static_cast<int>(c.r.below(9));
  auto fl = col;
  utl::fill(fl, val);
  CHECK(fl.size() == k.size() && std::all_of(fl.begin(), fl.end(), [&](int x) { return x == val; }), "fill", k);
  if constexpr (std::random_access_iterator<typename C::iterator>) {
    auto s = col, want = col;
    utl::sort(s);
    std::stable_sort(want.begin(), want.end());
    CHECK_EQ(want, s, "sort", k);
    s = col;
    utl::sort(s, std::greater<int>{});
    std::stable_sort(want.begin(), want.end(), std::greater<int>{});
    CHECK_EQ(want, s, "sort-desc", k);
    if (!k.empty()) {
      auto const n = c.r.below(k.size());
      bool const d = c.r.chance(1, 2);
      s = col;
      if (d) utl::nth_element(s, n, std::greater<int>{}); else { utl::nth_element(s, n); std::sort(want.begin(), want.end()); }
      CHECK_EQ(want[n], s[n], "nth_element", n, " of ", k);
      for (std::size_t i = 0; i < s.size(); ++i) { if (i < n) CHECK(d ? !(s[i] < s[n]) : !(s[n] < s[i]), "nth_element-left", k); if (i > n) CHECK(d ? !(s[n] < s[i]) : !(s[i] < s[n]), "nth_element-right", k); }
      std::sort(s.begin(), s.end());
      auto w = k; std::sort(w.begin(), w.end());
      CHECK(std::equal(w.begin(), w.end(), s.begin(), s.end()), "nth_element-contents", k);
    }
    c.count("predicates", 3);
  }
}

template <typename C>
void uniform(vf::ctx& c, C col) {
  std::vector<int> const k(col.begin(), col.end());
  bool const u = std::all_of(k.begin(), k.end(), [&](int x) { return x == k.front(); });
  auto im = [](int x) { return x / 2; };
  bool const ui = std::all_of(k.begin(), k.end(), [&](int x) { return im(x) == im(k.front()); });
  auto unmod = [&](char const* w) { CHECK(std::equal(k.begin(), k.end(), col.begin(), col.end()), std::string("is_uniform-modified/") + w, k, " -> ", std::vector<int>(col.begin(), col.end())); };
  C const& cc = col;
#ifndef VF_FALLBACK
  CHECK_EQ(u, utl::is_uniform(cc), "is_uniform-const", k);
  CHECK_EQ(ui, utl::is_uniform(cc.begin(), cc.end(), im), "is_uniform-const-fn", k);
  CHECK_EQ(ui, utl::is_uniform(cc, im), "is_uniform-const-collection-fn", k);
  CHECK_EQ(ui, utl::is_uniform(col, im), "is_uniform-collection-fn", k); unmod("collection-fn");
  CHECK_EQ(ui, utl::is_uniform(std::vector<int>(k), im), "is_uniform-temporary-fn", k);
#endif
  CHECK_EQ(u, utl::is_uniform(col), "is_uniform", k); unmod("collection");
  CHECK_EQ(u, utl::is_uniform(col.begin(), col.end()), "is_uniform-iterators", k); unmod("iterators");
  CHECK_EQ(ui, utl::is_uniform(col.begin(), col.end(), im), "is_uniform-fn", k); unmod("fn");
  c.count("uniform", 5);
}

template <typename T>
void bits(vf::ctx& c, T const x) {
  std::vector<unsigned> want, got;
  for (unsigned i = 0; i < sizeof(T) * 8; ++i) {
    bool const s = (static_cast<unsigned long long>(x) >> i) & 1u;
    if (s) want.push_back(i);
    CHECK_EQ(s, utl::has_bit_set(x, i), "has_bit_set", static_cast<unsigned long long>(x), " bit ", i, " width ", sizeof(T) * 8);
  }
  utl::for_each_set_bit(x, [&](unsigned b) { got.push_back(b); });
  CHECK_EQ(want, got, "for_each_set_bit", static_cast<unsigned long long>(x), " width ", sizeof(T) * 8);
  c.count("bits", want.size());
}
}  // namespace

SCENARIO(predicates, 3000, 100000) {
  auto const k = small(c);
  note(c, k, 1);
  switch (c.idx % 3) {
    case 0: preds(c, k); break;
    case 1: preds(c, std::deque<int>(k.begin(), k.end())); break;
    default: preds(c, std::list<int>(k.begin(), k.end())); break;
  }
}
SCENARIO(uniform, 3000, 100000) {
  auto k = small(c);
  if (c.idx >= 1100 && c.r.chance(1, 2) && !k.empty()) { auto const v = k[0]; for (auto& x : k) x = v; if (c.r.chance(1, 2)) k[c.r.below(k.size())] ^= 1; }
  note(c, k, 2);
  switch (c.idx % 3) {
    case 0: uniform(c, k); break;
    case 1: uniform(c, std::deque<int>(k.begin(), k.end())); break;
    default: uniform(c, std::list<int>(k.begin(), k.end())); break;
  }
}
SCENARIO(bits, 4000, 100000) {
  std::uint64_t x;
  if (c.idx < 256) x = c.idx * 0x0101010101010101ull;
  else if (c.idx < 384) x = 1ull << (c.idx % 64);
  else if (c.idx < 512) x = ~(1ull << (c.idx % 64));
  else { x = c.r.next(); for (auto n = c.r.below(3); n; --n) x &= c.r.next(); }
  bits<std::uint8_t>(c, static_cast<std::uint8_t>(x));
  bits<std::uint16_t>(c, static_cast<std::uint16_t>(x));
  bits<std::uint32_t>(c, static_cast<std::uint32_t>(x));
  bits<std::uint64_t>(c, x);
  bits<unsigned char>(c, static_cast<unsigned char>(c.idx));
  bits<unsigned long long>(c, x);
#ifndef VF_LEAN
  {  // 128 bits
    using wide = unsigned __int128;
    auto const hi = c.idx < 512 ? (c.idx % 3 ? x : 0) : c.r.next() & c.r.next();
    wide const w = (static_cast<wide>(hi) << 64) | x;
    std::vector<unsigned> want, got;
    for (unsigned i = 0; i < 128; ++i) {
      bool const s = ((i < 64 ? x >> i : hi >> (i - 64)) & 1U) != 0;
      if (s) want.push_back(i);
      CHECK_EQ(s, utl::has_bit_set(w, i), "has_bit_set/128", hi, " ", x, " bit ", i);
    }
    utl::for_each_set_bit(w, [&](unsigned b) { got.push_back(b); });
    CHECK_EQ(want, got, "for_each_set_bit/128", hi, " ", x);
  }
#endif
  c.distinct(x);
}
SCENARIO(large, 8, 48) {
  auto k = gen::keys(c.r, c.r.pick({256u, 1000u, 20000u, 65537u}));
  note(c, k, 3);
  preds(c, k);
  uniform(c, k);
  // hits, positions and lengths beyond narrow counters
  auto const n = c.r.pick({256UL, 257UL, 65535UL, 65536UL, 65537UL, 70001UL, 131073UL});
  std::vector<int> v(n, 2);
  auto two = [](int x) { return x == 2; };
  auto const at = static_cast<std::ptrdiff_t>(n - 1 - c.r.below(3));
  CHECK_EQ(n, static_cast<std::size_t>(utl::count_if(v, two)), "large/count");
  CHECK(utl::all_of(v, two) && !utl::none_of(v, two) && utl::is_uniform(v) && utl::is_uniform(v, [](int x) { return x % 2; }), "large/uniform", n);
  auto w = v;
  CHECK(utl::equal(v, w), "large/equal", n);
  w[static_cast<std::size_t>(at)] = 5;
  CHECK_EQ(n - 1, static_cast<std::size_t>(utl::count_if(w, two)), "large/count-but-one");
  CHECK(!utl::all_of(w, two) && utl::any_of(w, [](int x) { return x == 5; }) && !utl::none_of(w, [](int x) { return x == 5; }) && !utl::is_uniform(w) && !utl::is_uniform(w, [](int x) { return x % 2; }) && !utl::equal(v, w), "large/one-differs", n);
  CHECK_EQ(at, utl::find(w, 5) - w.begin(), "large/find");
  CHECK_EQ(at, utl::find_if(w, [](int x) { return x == 5; }) - w.begin(), "large/find_if");
  CHECK_EQ(at, utl::max_element(w, std::less<int>{}) - w.begin(), "large/max_element");
  CHECK_EQ(at, utl::min_element(w, std::greater<int>{}) - w.begin(), "large/min_element");
  CHECK_EQ(at >= static_cast<std::ptrdiff_t>(n) - 1, utl::is_sorted(w, std::less<int>{}), "large/is_sorted", n);
  utl::fill(w, 9);
  CHECK(std::all_of(w.begin(), w.end(), [](int x) { return x == 9; }), "large/fill", n);
}
