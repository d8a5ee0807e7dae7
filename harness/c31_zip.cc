#include "gen.h"
#include "utl/zip.h"

namespace {
struct el {
  static inline long copies = 0, moves = 0, live = 0;
  std::unique_ptr<int> v;
  el() : el{0} {}
  explicit el(int x) : v{std::make_unique<int>(x)} { ++live; }
  el(el const& o) : v{std::make_unique<int>(*o.v)} { ++copies; ++live; }
  el(el&& o) noexcept : v{std::move(o.v)} { ++moves; ++live; }
  el& operator=(el const& o) { v = std::make_unique<int>(*o.v); ++copies; return *this; }
  el& operator=(el&& o) noexcept { v = std::move(o.v); ++moves; return *this; }
  ~el() { --live; }
};
template <typename C> C build(std::vector<int> const& k) { C r; for (auto x : k) r.emplace_back(x); return r; }
template <typename C> auto addrs(C const& c) { std::vector<void const*> v; for (auto const& x : c) v.push_back(&x); return v; }

template <bool Const, std::size_t... I, typename R, typename A>
void judge(vf::ctx& c, std::index_sequence<I...>, R&& r, A const& ad, std::size_t n, char const* form) {
  std::size_t i = 0;
  for (auto&& t : r) {
    static_assert(std::tuple_size_v<std::decay_t<decltype(t)>> == sizeof...(I));
    CHECK(i < n, std::string("too-many/") + form, n);
    bool const same = ((static_cast<void const*>(&std::get<I>(t)) == ad[I][i]) && ...);
    CHECK(same, std::string("tuple/") + form, "i=", i, " n=", n);
    if constexpr (Const) CHECK((std::is_const_v<std::remove_reference_t<std::tuple_element_t<I, std::decay_t<decltype(t)>>>> && ...), std::string("const/") + form);
    ++i;
  }
  CHECK_EQ(n, i, std::string("count/") + form);
  c.count("tuples", i);
  c.count("ranges");
}

template <typename... C>
void lvalues(vf::ctx& c, C&... col) {
  constexpr auto K = sizeof...(C);
  using seq = std::make_index_sequence<K>;
  std::array<std::vector<void const*>, K> const ad{addrs(col)...};
  auto const n = ad[0].size();
  auto const before = el::copies + el::moves;
  judge<false>(c, seq{}, utl::zip(col...), ad, n, "zip");
  judge<true>(c, seq{}, utl::czip(col...), ad, n, "czip");
  judge<false>(c, seq{}, utl::zip_no_size_check(col...), ad, n, "zip_no_size_check");
  judge<false>(c, seq{}, utl::zip_unchecked(col...), ad, n, "zip_unchecked");
  judge<true>(c, seq{}, utl::czip_no_size_check(col...), ad, n, "czip_no_size_check");
  judge<true>(c, seq{}, utl::czip_unchecked(col...), ad, n, "czip_unchecked");
  judge<true>(c, seq{}, utl::zip(std::as_const(col)...), ad, n, "zip-const");
  auto z = utl::zip(col...);
  judge<false>(c, seq{}, z, ad, n, "kept");
  judge<true>(c, seq{}, std::as_const(z), ad, n, "const-range");
  {  // the free begin and end, as used by generic code
    auto const& cz = z;
    CHECK(begin(z) == z.begin() && end(z) == z.end() && begin(cz) == cz.begin() && end(cz) == cz.end(), "free-begin-end");
    CHECK_EQ(n, static_cast<std::size_t>(std::distance(begin(cz), end(cz))), "free-begin-end");
  }
  CHECK_EQ(n, z.size(), "size");
  CHECK_EQ(n, utl::czip(col...).size(), "size-c");
  CHECK_EQ(n, static_cast<std::size_t>(std::distance(z.begin(), z.end())), "distance");
  auto same = [&]<std::size_t... I>(auto&& t, std::size_t i, std::index_sequence<I...>) { return ((static_cast<void const*>(&std::get<I>(t)) == ad[I][i]) && ...); };
  for (int q = 0; q < 4 && n; ++q) {
    auto const i = q == 0 ? 0 : q == 1 ? n - 1 : c.r.below(n);
    CHECK(same(z[i], i, seq{}), "index", i);
    CHECK(same(std::as_const(z)[i], i, seq{}), "index-const", i);
    auto it = z.begin(), ref = z.begin();
    std::advance(it, static_cast<std::ptrdiff_t>(i));
    CHECK((it == ref) == (i == 0) && (it != ref) == (i != 0), "equality", i);
    CHECK((it == z.end()) == false && (it != z.end()), "equality-end", i);
    CHECK(same(*it, i, seq{}), "advance", i);
    auto const cit = it;
    CHECK(same(*cit, i, seq{}), "const-deref", i);
  }
  // walk backwards
  if constexpr ((std::bidirectional_iterator<decltype(col.begin())> && ...)) {
    auto it = z.end();
    for (std::size_t i = n; i-- > 0;) { --it; CHECK(same(*it, i, seq{}), "backwards", i); }
    CHECK(it == z.begin(), "backwards-begin");
    std::size_t pos = 0;
    for (int q = 0; q < 30 && n; ++q) {
      if (c.r.chance(1, 2)) { if (pos + 1 < n) { auto& x = ++it; CHECK(&x == &it, "++ result"); ++pos; } }
      else if (pos) { auto& x = --it; CHECK(&x == &it, "-- result"); --pos; }
      CHECK(same(*it, pos, seq{}), "walk", pos);
    }
  }
  if constexpr ((std::random_access_iterator<decltype(col.begin())> && ...)) {
    for (int q = 0; q < 6; ++q) {
      auto const i = c.r.below(n + 1), j = c.r.below(n + 1);
      auto a = z.begin(), b = z.begin();
      std::advance(a, static_cast<std::ptrdiff_t>(i));
      std::advance(b, static_cast<std::ptrdiff_t>(j));
      CHECK((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j) && (a == b) == (i == j) && (a != b) == (i != j), "comparison", i, " ", j);
    }
  }
  CHECK_EQ(before, el::copies + el::moves, "elements-copied-or-moved");
  // writes
  int k = 0;
  std::vector<int> want;
  for (auto&& t : utl::zip(col...)) {
    std::apply([&](auto&... x) { ((*x.v = ++k, want.push_back(k)), ...); }, t);
  }
  std::vector<std::vector<int>> got;
  (([&] { got.emplace_back(); for (auto const& x : col) got.back().push_back(*x.v); }()), ...);
  std::size_t w = 0;
  for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < K; ++j) CHECK_EQ(want[w++], got[j][i], "writes", i);
}

template <typename... C>
void mismatch(vf::ctx& c, C&... col) {
  auto const s0 = std::get<0>(std::tie(col...)).size();
  bool const eq = ((col.size() == s0) && ...);
  auto throws = [&](auto f) { try { f(); return false; } catch (std::exception const&) { return true; } };
  CHECK_EQ(!eq, throws([&] { (void)utl::zip(col...); }), "throws", "sizes ", std::vector<std::size_t>{col.size()...});
  CHECK_EQ(!eq, throws([&] { (void)utl::czip(col...); }), "throws-c", "sizes ", std::vector<std::size_t>{col.size()...});
  c.count(eq ? "equal-size" : "mismatch");
}

using V = std::vector<el>;
#ifdef VF_LEAN
using L = std::deque<el>;
#else
using L = std::list<el>;
#endif
using D = std::deque<el>;
}  // namespace

SCENARIO(lvalues, 2000, 80000) {
  auto const n = c.idx < 200 ? c.idx % 20 : c.r.size(60);
  std::vector<int> k;
  for (std::size_t i = 0; i < n; ++i) k.push_back(static_cast<int>(c.r.below(1000)));
  auto v = build<V>(k), v2 = build<V>(k);
  auto l = build<L>(k), l2 = build<L>(k);
  auto d = build<D>(k);
  switch (c.r.below(7)) {
    case 0: lvalues(c, v); break;
    case 1: lvalues(c, v, v2); break;
#ifndef VF_LEAN
    case 2: lvalues(c, v, l); break;
    case 3: lvalues(c, l, l2); break;
#endif
    case 4: lvalues(c, v, d, v2); break;
#ifndef VF_LEAN
    case 5: lvalues(c, d, l, v, l2); break;
#endif
    default: lvalues(c, v, d, v2, l, l2); break;
  }
  c.distinct(vf::hcomb(n, c.idx % 7));
  if (c.want_sample()) c.sample(vf::cat("n=", n));
}

SCENARIO(sizes, 4096, 40000) {
  // all pairs/triples of small sizes, then random
  std::size_t a, b, d;
  if (c.idx < 512) { a = c.idx % 8; b = c.idx / 8 % 8; d = c.idx / 64 % 8; }
  else { a = c.r.size(300); b = c.r.chance(1, 2) ? a : c.r.size(300); d = c.r.chance(1, 2) ? a : a + c.r.range(-1, 1) * (a > 0); }
  std::vector<int> A(a), B(b);
  std::list<int> C(d);
  std::map<int, int> M;
  for (std::size_t i = 0; i < a; ++i) M[static_cast<int>(i)] = 1;
  c.distinct(vf::hcomb(a, vf::hcomb(b, d)));
  mismatch(c, A, B);
  mismatch(c, B, C);
  mismatch(c, A, B, C);
  mismatch(c, C, A, B, M);
  mismatch(c, A, M);
  std::vector<int> A2 = A;
  mismatch(c, A, A2, B);
}

SCENARIO(owned, 1500, 40000) {
  auto const n = c.r.size(40);
  std::vector<int> k;
  for (std::size_t i = 0; i < n; ++i) k.push_back(static_cast<int>(c.r.below(1000)));
  el::live = 0;
  {
    auto v = build<V>(k);
    auto const ad = addrs(v);
    auto run = [&](auto&& z, char const* f) {
      std::size_t i = 0;
      for (auto&& [x, y] : z) {
        CHECK(i < n && *x.v == k[i] && static_cast<void const*>(&y) == ad[i], std::string("owned/") + f, i);
        ++i;
      }
      CHECK_EQ(n, i, std::string("owned-count/") + f);
      c.count("ranges");
    };
    run(utl::zip(build<L>(k), v), "inline");
    run(utl::czip(build<V>(k), v), "inline-c");
    auto z = utl::zip(build<V>(k), v);
    run(z, "kept");
    auto z2 = std::move(z);
    run(z2, "moved");
    std::size_t i = 0;
    auto zz = utl::zip(build<V>(k), build<D>(k), std::as_const(v));
    for (auto&& [x, y, w] : zz) { CHECK(*x.v == k[i] && *y.v == k[i] && *w.v == k[i], "owned-3", i); ++i; }
    CHECK_EQ(n, i, "owned-3-count");
    CHECK_EQ(n, zz.size(), "owned-size");
    // writes go to the owned containers, the lvalue is a reference
    for (auto&& [x, y] : z2) { *x.v += 1; *y.v += 7; }
    i = 0;
    for (auto&& [x, y] : z2) { CHECK(*x.v == k[i] + 1 && *y.v == k[i] + 7, "owned-writes", i); ++i; }
    i = 0;
    for (auto const& x : v) { CHECK_EQ(k[i] + 7, *x.v, "lvalue-writes", i); ++i; }
    CHECK_EQ(n, v.size(), "lvalue-kept");
    c.distinct(vf::hcomb(99, n));
  }
  CHECK_EQ(0, el::live, "owned-leak");
}

SCENARIO(kinds, 600, 20000) {
  // strings, maps, sets, nested temporaries, const elements
  auto const n = c.r.size(40);
  std::map<int, std::string> m;
  std::set<int> s;
  std::string str;
  for (std::size_t i = 0; i < n; ++i) { m[static_cast<int>(i)] = gen::word(c.r, 30); s.insert(static_cast<int>(2 * i)); str += static_cast<char>('a' + i % 26); }
  std::size_t i = 0;
  auto sb = str.begin();
  for (auto&& [kv, x, ch] : utl::zip(m, s, str)) {
    CHECK(std::is_const_v<std::remove_reference_t<decltype(x)>>, "set-const");
    CHECK(kv.first == static_cast<int>(i) && &kv.second == &m.at(kv.first) && x == static_cast<int>(2 * i) && &ch == &*sb, "kinds", i);
    kv.second += "!";
    ++i; ++sb;
  }
  CHECK_EQ(n, i, "kinds-count");
  i = 0;
  for (auto const& [k, v] : m) { CHECK(!v.empty() && v.back() == '!', "kinds-write", k); ++i; }
  for (auto&& [kv, ch] : utl::czip(m, str)) { CHECK((std::is_const_v<std::remove_reference_t<decltype(kv)>> && std::is_const_v<std::remove_reference_t<decltype(ch)>>), "czip-const"); --i; }
  CHECK_EQ(0u, i, "kinds-count-c");
  std::array<int, 5> a{1, 2, 3, 4, 5};
  std::vector<int> v5{1, 2, 3, 4, 5};
  int sum = 0;
  for (auto&& [x, y] : utl::zip(a, v5)) { CHECK(x == y, "array"); sum += x; x = 0; }
  CHECK(sum == 15 && a == (std::array<int, 5>{}), "array-write");
  c.distinct(n);
}
SCENARIO(large, 16, 200) {  // sizes around narrow counters, also when compared
  auto const n = c.r.pick({255UL, 256UL, 257UL, 65535UL, 65536UL, 65537UL, 70000UL});
  std::vector<int> a(n), b(n);
  std::vector<std::uint8_t> d(n);
  std::iota(a.begin(), a.end(), 0);
  auto z = utl::zip(a, b, d);
  CHECK_EQ(n, z.size(), "large-size");
  std::size_t i = 0;
  for (auto&& [x, y, w] : z) { CHECK(&x == &a[i] && &y == &b[i] && &w == &d[i], "large-tuple", i); y = x + 1; ++i; }
  CHECK_EQ(n, i, "large-count");
  CHECK_EQ(static_cast<int>(n), b.back(), "large-write");
  CHECK(&std::get<1>(z[n - 1]) == &b[n - 1], "large-index");
  CHECK_EQ(static_cast<std::ptrdiff_t>(n), std::distance(z.begin(), z.end()), "large-distance");
  for (std::size_t off : {std::size_t{256}, std::size_t{65536}, std::size_t{1}}) {
    if (off > n) continue;
    std::vector<int> e(n - off);
    for (int form = 0; form < 3; ++form) {
      bool threw = false;
      try { if (form == 0) (void)utl::zip(a, e); else if (form == 1) (void)utl::czip(e, a); else (void)utl::zip(a, b, e); } catch (std::exception const&) { threw = true; }
      CHECK(threw, "large-mismatch", n, " vs ", n - off, " form ", form);
      c.count("mismatch");
    }
  }
  c.count("tuples", n);
}

#ifndef VF_LEAN
SCENARIO(beyond_32_bits, 4, 16) {  // sizes that 32 bits do not hold, and pairs of sizes that only differ above them
  constexpr std::size_t g4 = std::size_t{1} << 32;
  gen::giant g{g4 + 70000};
  if (!g.p) { c.count("giant-unavailable"); return; }
  auto const m = c.r.pick({std::size_t{0}, std::size_t{1}, std::size_t{5}, std::size_t{69000}});
  std::span<char> big{g.p, g4 + m}, big2{g.p + 7, g4 + m}, small{g.p, m}, half{g.p, m + g4 / 2}, other{g.p, m + 1};
  auto const threw = [&](auto&& f) { c.count("mismatch"); try { f(); } catch (std::exception const&) { return true; } return false; };
  CHECK(threw([&] { (void)utl::zip(big, small); }) && threw([&] { (void)utl::zip(small, big); }) && threw([&] { (void)utl::czip(small, big); }) &&
        threw([&] { (void)utl::zip(big, big2, small); }) && threw([&] { (void)utl::zip(small, small, big); }) && threw([&] { (void)utl::zip(big, half); }) &&
        threw([&] { (void)utl::zip(half, small); }) && threw([&] { (void)utl::zip(big, other); }), "giant/mismatch-accepted", m);
  bool ok = true;
  try {
    auto z = utl::zip(big, big2);
    CHECK_EQ(g4 + m, z.size(), "giant/size");
    auto i = z.end();
    for (std::size_t k = g4 + m; k > g4 + m - 5; --k) {
      --i;
      auto&& t = *i;
      CHECK(&std::get<0>(t) == g.p + k - 1 && &std::get<1>(t) == g.p + 7 + k - 1, "giant/tuple", k);
    }
    CHECK(z.begin() != z.end() && z.begin() < i && i > z.begin() && i < z.end(), "giant/order");
  } catch (std::exception const&) { ok = false; }
  CHECK(ok, "giant/match-rejected", m);
  c.count("giants");
  c.distinct(m);
}
#endif
