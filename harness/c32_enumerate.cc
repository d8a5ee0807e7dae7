#include "gen.h"
#include <span>
#include <string>
#include "utl/enumerate.h"

namespace {
struct el {
  static inline long copies = 0, live = 0;
  std::unique_ptr<int> v;
  explicit el(int x) : v{std::make_unique<int>(x)} { ++live; }
  el(el const& o) : v{std::make_unique<int>(*o.v)} { ++copies; ++live; }
  el(el&& o) noexcept : v{std::move(o.v)} { ++live; }
  el& operator=(el const& o) { v = std::make_unique<int>(*o.v); ++copies; return *this; }
  el& operator=(el&&) = default;
  ~el() { --live; }
};
template <typename C> C build(std::vector<int> const& k) {
  C r;
  if constexpr (requires { r.emplace_back(1); }) { for (auto x : k) r.emplace_back(x); }
  else { for (auto i = k.rbegin(); i != k.rend(); ++i) r.emplace_front(*i); }
  return r;
}
template <typename C> auto addrs(C& c) { std::vector<void const*> v; for (auto& x : c) v.push_back(&x); return v; }

template <typename C>
void basic(vf::ctx& c, C& col, char const* form) {
  auto const ad = addrs(col);
  auto const n = ad.size();
  auto const before = el::copies;
  std::size_t k = 0;
  for (auto&& [i, x] : utl::enumerate(col)) {
    CHECK(k < n, std::string("too-many/") + form);
    CHECK(i == k && static_cast<void const*>(&x) == ad[k], std::string("pair/") + form, "index ", i, " position ", k);
    ++k;
  }
  CHECK_EQ(n, k, std::string("count/") + form);
  k = 0;
  for (auto const [i, x] : utl::enumerate(std::as_const(col))) {
    CHECK(std::is_const_v<std::remove_reference_t<decltype(x)>>, std::string("const/") + form);
    CHECK(k < n && i == k && static_cast<void const*>(&x) == ad[k], std::string("pair-const/") + form, "index ", i, " position ", k);
    ++k;
  }
  CHECK_EQ(n, k, std::string("count-const/") + form);
  CHECK_EQ(before, el::copies, std::string("copies/") + form);
  if constexpr (requires { *(*col.begin()).v = 1; }) {
    std::vector<int> want, got;
    for (auto&& [i, x] : utl::enumerate(col)) { want.push_back(*x.v + static_cast<int>(i)); *x.v += static_cast<int>(i); }
    for (auto const& x : col) got.push_back(*x.v);
    CHECK_EQ(want, got, std::string("writes/") + form);
  }
  c.count("elements", 3 * n);
  c.count("ranges", 3);
}

// random walks over the iterators; position model on the side
template <typename C>
void walk(vf::ctx& c, C& col) {
  using it_t = decltype(col.begin());
  auto const ad = addrs(col);
  auto const n = static_cast<std::ptrdiff_t>(ad.size());
  auto e = utl::enumerate(col);
  auto it = e.begin();
  std::ptrdiff_t pos = 0;
  if constexpr (std::bidirectional_iterator<it_t>) {
    if (c.r.chance(1, 3)) { it = e.end(); pos = n; }
  }
  auto at = [&](auto const& i, std::ptrdiff_t p, char const* op) {
    if (p < n) {
      auto const t = *i;
      CHECK(std::get<0>(t) == static_cast<std::size_t>(p) && static_cast<void const*>(&std::get<1>(t)) == ad[static_cast<std::size_t>(p)],
            std::string("walk/") + op, "index ", std::get<0>(t), " position ", p, " n=", n);
    }
    CHECK((i != e.end()) == (p != n), std::string("walk-end/") + op, p, "/", n);
    CHECK((i != e.begin()) == (p != 0), std::string("walk-begin/") + op, p, "/", n);
    if constexpr (std::random_access_iterator<it_t>) {
      CHECK(i - e.begin() == p && e.end() - i == n - p && e.begin() - i == -p && i - e.end() == p - n, std::string("distance/") + op,
            "at ", p, " of ", n, ": from begin ", i - e.begin(), " to end ", e.end() - i);
    }
  };
  at(it, pos, "begin");
  for (int q = 0; q < 24; ++q) {
    switch (c.r.below(7)) {
      case 0: if (pos < n) { ++it; ++pos; at(it, pos, "++"); } break;
      case 2: if constexpr (std::bidirectional_iterator<it_t>) { if (pos > 0) { --it; --pos; at(it, pos, "--"); } } break;
#ifndef VF_FALLBACK
      case 1: if (pos < n) { if constexpr (requires { it++; }) { auto const old = it++; ++pos; at(old, pos - 1, "post++old"); at(it, pos, "post++"); } } break;
      case 3: if constexpr (std::bidirectional_iterator<it_t>) { if (pos > 0) { if constexpr (requires { it--; }) { auto const old = it--; --pos; at(old, pos + 1, "post--old"); at(it, pos, "post--"); } } } break;
#endif
      case 4: if constexpr (std::random_access_iterator<it_t>) { auto const d = c.r.range(-pos, n - pos); auto& r = it += d; CHECK(&r == &it, "+= result"); pos += d; at(it, pos, "+="); } break;
      case 5: if constexpr (std::random_access_iterator<it_t>) { auto const d = c.r.range(pos - n, pos); auto& r = it -= d; CHECK(&r == &it, "-= result"); pos -= d; at(it, pos, "-="); } break;
      default: if constexpr (std::random_access_iterator<it_t>) { auto j = e.begin(); auto const p = c.r.range(0, n); j += p; CHECK_EQ(p - pos, j - it, "distance-2"); } break;
    }
    c.count("walk-steps");
  }
}

std::vector<int> ints(vf::ctx& c, std::size_t n) { std::vector<int> k; for (std::size_t i = 0; i < n; ++i) k.push_back(static_cast<int>(c.r.below(1000))); return k; }
}  // namespace

SCENARIO(containers, 2500, 100000) {
  auto const n = c.idx < 240 ? c.idx / 8 : c.r.size(80);
  auto const k = ints(c, n);
  c.distinct(vf::hcomb(n, c.idx % 8));
  if (c.want_sample()) c.sample(vf::cat("n=", n));
  switch (c.idx % 8) {
    case 0: { auto v = build<std::vector<el>>(k); basic(c, v, "vector"); walk(c, v); break; }
#ifndef VF_LEAN
    case 1: { auto v = build<std::list<el>>(k); basic(c, v, "list"); walk(c, v); break; }
#endif
    case 2: { auto v = build<std::deque<el>>(k); basic(c, v, "deque"); walk(c, v); break; }
#ifndef VF_LEAN
    case 3: { auto v = build<std::forward_list<el>>(k); basic(c, v, "forward_list"); walk(c, v); break; }
#endif
    case 4: { std::set<int> s(k.begin(), k.end()); basic(c, s, "set"); walk(c, s); break; }
    case 5: { std::map<int, int> m; for (auto x : k) m[x] = x; basic(c, m, "map"); walk(c, m);
      for (auto&& [i, kv] : utl::enumerate(m)) kv.second = static_cast<int>(i);
      int j = 0; for (auto const& [a, b] : m) CHECK_EQ(j++, b, "map-writes", a); break; }
    case 6: { std::string s; for (auto x : k) s += static_cast<char>('a' + x % 26); basic(c, s, "string"); walk(c, s); break; }
    default: { int a[7] = {5, 4, 3, 2, 1, 0, 9}; std::size_t j = 0; for (auto&& [i, x] : utl::enumerate(a)) { CHECK(i == j && &x == &a[j], "c-array"); ++j; } CHECK(j == 7, "c-array-count");
      std::vector<std::vector<int>> vv{k, k}; basic(c, vv, "nested"); walk(c, vv); break; }
  }
}

SCENARIO(pointers, 800, 20000) {
  auto const k = ints(c, c.r.size(50));
  auto v = build<std::vector<el>>(k);
  std::vector<el*> p;
  for (auto& x : v) p.push_back(&x);
  std::size_t j = 0;
  for (auto&& [i, x] : utl::enumerate(p)) { static_assert(std::is_same_v<std::decay_t<decltype(x)>, el*>); CHECK(i == j && x == p[j], "pointer"); ++j; }
  CHECK_EQ(p.size(), j, "pointer-count");
  std::list<el const*> const pc(p.begin(), p.end());
  j = 0;
  for (auto&& [i, x] : utl::enumerate(pc)) { CHECK(i == j && x == p[j], "const-pointer"); ++j; }
  CHECK_EQ(p.size(), j, "const-pointer-count");
  std::vector<std::unique_ptr<int>> u;
  for (auto x : k) u.push_back(std::make_unique<int>(x));
  j = 0;
#ifndef VF_LEAN
  for (auto&& [i, x] : utl::enumerate(u)) { CHECK(i == j && &x == &u[j] && *x == k[j], "unique_ptr"); ++j; }
  CHECK_EQ(u.size(), j, "unique_ptr-count");
#endif
  std::vector<bool> b;
  for (auto x : k) b.push_back(x % 2);
  j = 0;
  for (auto&& [i, x] : utl::enumerate(b)) { CHECK(i == j && x == (k[j] % 2 != 0), "bool"); ++j; }
  CHECK_EQ(b.size(), j, "bool-count");
  c.distinct(k.size());
}

SCENARIO(owned, 1500, 40000) {
  auto const k = ints(c, c.r.size(40));
  el::live = 0;
  {
    auto check = [&](auto&& r, char const* f) {
      std::size_t j = 0;
      for (auto&& [i, x] : r) { CHECK(j < k.size() && i == j && *x.v == k[j], std::string("owned/") + f, j); ++j; }
      CHECK_EQ(k.size(), j, std::string("owned-count/") + f);
      c.count("ranges");
    };
    check(utl::enumerate(build<std::vector<el>>(k)), "vector");
#ifndef VF_LEAN
    check(utl::enumerate(build<std::list<el>>(k)), "list");
    check(utl::enumerate(build<std::forward_list<el>>(k)), "forward_list");
#endif
    auto e = utl::enumerate(build<std::deque<el>>(k));
    CHECK_EQ(static_cast<long>(k.size()), el::live, "owned-live");
    check(e, "kept");
    auto e2 = std::move(e);
    check(e2, "moved");
    auto const src = build<std::vector<el>>(k);
    auto v = src;
    check(utl::enumerate(std::move(v)), "std::move");
    CHECK_EQ(k.size(), src.size(), "source");
  }
  CHECK_EQ(0, el::live, "owned-leak");
  c.distinct(k.size());
}

// standard algorithms on the iterators
SCENARIO(algorithms, 800, 20000) {
  auto const k = ints(c, c.r.size(60));
  std::vector<int> v = k;
  auto e = utl::enumerate(v);
  CHECK_EQ(static_cast<std::ptrdiff_t>(k.size()), e.end() - e.begin(), "end-minus-begin");
  CHECK_EQ(static_cast<std::ptrdiff_t>(k.size()), static_cast<std::ptrdiff_t>(std::distance(e.begin(), e.end())), "std::distance");
  std::list<int> l(k.begin(), k.end());
  auto el_ = utl::enumerate(l);
  std::ptrdiff_t n = 0;
  for (auto i = el_.begin(); i != el_.end(); ++i) ++n;
  CHECK_EQ(static_cast<std::ptrdiff_t>(k.size()), n, "list-distance");
  c.distinct(k.size());
}

SCENARIO(large, 12, 120) {  // positions beyond narrow counters
  auto const n = c.r.pick({255UL, 256UL, 257UL, 65535UL, 65536UL, 65537UL, 70000UL, 131073UL});
  std::vector<int> v(n);
  std::list<int> l(c.idx % 3 == 0 ? n : 300);
  std::size_t i = 0;
  for (auto&& [k, x] : utl::enumerate(v)) { CHECK(i < n && k == i && &x == &v[i], "large/pair", k, " at ", i); ++i; }
  CHECK_EQ(n, i, "large/count");
  i = 0;
  auto li = l.begin();
  for (auto&& [k, x] : utl::enumerate(l)) { CHECK(li != l.end() && k == i && &x == &*li, "large/pair-list", k, " at ", i); ++i; ++li; }
  CHECK_EQ(l.size(), i, "large/count-list");
  auto e = utl::enumerate(v);
  auto back = e.end();
  for (i = n; i-- > 0;) { --back; auto const t = *back; if (std::get<0>(t) != i || &std::get<1>(t) != &v[i]) { CHECK(false, "large/backwards", std::get<0>(t), " at ", i); } }
  auto it = e.begin();
  std::size_t pos = 0;
  for (int q = 0; q < 40; ++q) {
    auto const to = c.r.below(n);
    auto const d = static_cast<std::ptrdiff_t>(to) - static_cast<std::ptrdiff_t>(pos);
    if (c.r.chance(1, 2)) it += d; else it -= -d;
    pos = to;
    auto const t = *it;
    CHECK(std::get<0>(t) == pos && &std::get<1>(t) == &v[pos], "large/jump", std::get<0>(t), " at ", pos);
    CHECK(it - e.begin() == static_cast<std::ptrdiff_t>(pos) && e.end() - it == static_cast<std::ptrdiff_t>(n - pos), "large/distance", pos);
  }
  c.count("elements", 2 * n);
  c.distinct(vf::hcomb(n, pos));
}

#ifndef VF_LEAN
SCENARIO(beyond_32_bits, 4, 16) {  // positions that 32 bits do not hold, by jumps and by steps at the far end
  constexpr std::size_t g4 = std::size_t{1} << 32;
  gen::giant g{g4 + 70000};
  if (!g.p) { c.count("giant-unavailable"); return; }
  std::span<char> const v{g.p, g.n};
  auto const go = [&](auto& range, char const* form) {
    auto e = utl::enumerate(range);
    auto const pair = [&](auto const& i, std::size_t p, char const* op) {
      auto const t = *i;
      CHECK(static_cast<std::size_t>(std::get<0>(t)) == p && static_cast<void const*>(&std::get<1>(t)) == g.p + p, std::string("giant/") + op + "/" + form, "index ",
            std::get<0>(t), " position ", p);
      c.count("giant-positions");
    };
    auto it = e.end();
    CHECK(it - e.begin() == static_cast<std::ptrdiff_t>(g.n) && e.begin() - it == -static_cast<std::ptrdiff_t>(g.n), "giant/distance", it - e.begin());
    std::size_t pos = g.n;
    for (int k = 0; k < 40; ++k) { --it; --pos; pair(it, pos, "--"); }
    it = e.begin();
    pos = 0;
    for (int k = 0; k < 60; ++k) {
      auto const to = c.r.pick({g4 + c.r.below(60000), g4 - c.r.below(60000), g4 / 2 + c.r.below(3), g4 / 2 - c.r.below(3), c.r.below(70000), std::size_t{0}, g4, g4 - 1, g.n - 1});
      auto const d = static_cast<std::ptrdiff_t>(to) - static_cast<std::ptrdiff_t>(pos);
      auto const from = it;
      if (c.r.chance(1, 2)) it += d; else it -= -d;
      pos = to;
      pair(it, pos, "jump");
      CHECK(it - from == d && from - it == -d, "giant/difference", it - from, " want ", d);
    }
    it = e.begin();
    it += static_cast<std::ptrdiff_t>(g4 - 3);
    for (std::size_t k = g4 - 3; k < g4 + 3; ++k) { pair(it, k, "++"); ++it; }
  };
  go(v, "const");
  auto w = v;
  go(w, "lvalue");
  c.distinct(c.idx);
}
#endif
