#include "gen.h"
#include "utl/nwise.h"
#include "utl/pairwise.h"

namespace {
using gen::rec;
template <typename C> std::vector<typename C::value_type const*> addrs(C const& c) {
  std::vector<typename C::value_type const*> v;
  for (auto const& x : c) v.push_back(&x);
  return v;
}

// windows seen through any range-for-able object
template <std::size_t N, typename R, typename P>
void judge(vf::ctx& c, R&& r, P const& elems, char const* form) {
  auto F = [&](char const* k) { return std::string(k) + "/" + form + "/N" + std::to_string(N); };
  std::size_t i = 0;
  auto const n = elems.size();
  auto const want = n < N ? 0 : n - N + 1;
  for (auto&& w : r) {
    static_assert(std::tuple_size_v<std::decay_t<decltype(w)>> == N);
    CHECK(i < want, F("too-many"), n);
    auto at = [&]<std::size_t... I>(std::index_sequence<I...>) {
      return ((static_cast<void const*>(&std::get<I>(w)) == static_cast<void const*>(elems[i + I])) && ...);
    };
    CHECK(at(std::make_index_sequence<N>{}), F("window"), "window ", i, " of n=", n);
    ++i;
  }
  CHECK_EQ(want, i, F("count"), "n=", n);
  c.count("windows", i);
  c.count("ranges");
}

// size() on a range object
template <std::size_t N, typename R>
void judge_size(vf::ctx& c, R const& r, std::size_t n) {
  CHECK_EQ(n < N ? 0 : n - N + 1, r.size(), "size/N" + std::to_string(N), "n=", n);
}

template <std::size_t N, typename C>
void lvalues(vf::ctx& c, C& col) {
  auto const el = addrs(col);
  auto r = utl::nwise<N>(col);
  judge<N>(c, r, el, "lvalue");
  judge<N>(c, r, el, "again");  // re-iterable
  judge_size<N>(c, r, el.size());
  C const& cc = col;
  auto const rc = utl::nwise<N>(cc);
  judge<N>(c, rc, el, "const");
  judge_size<N>(c, rc, el.size());
  // classic iteration with != and pre-increment and copies of iterators
  std::size_t k = 0;
  auto it = r.begin();
  auto const e = r.end();
  std::vector<decltype(it)> saved;
  for (; it != e; ++it) { if (k < 64) saved.push_back(it); ++k; }
  CHECK((it == e) && !(it != e), "end-equality");
  CHECK_EQ(el.size() < N ? 0 : el.size() - N + 1, k, "loop-count");
  for (std::size_t i = 0; i < saved.size(); ++i) {
    auto const& s = saved[i];
    auto w = *s;
    CHECK(static_cast<void const*>(&std::get<0>(w)) == el[i] && static_cast<void const*>(&std::get<N - 1>(w)) == el[i + N - 1], "saved-iterator");
    CHECK(!(s == e), "not-end");
  }
}

template <std::size_t N, typename C>
void writes(vf::ctx& c, C col) {
  std::vector<int> before;
  for (auto const& x : col) before.push_back(x.id);
  for (auto&& w : utl::nwise<N>(col)) {
    std::get<0>(w).id += 1000;
    std::get<N - 1>(w).id += 1;
  }
  std::vector<int> want = before;
  if (before.size() >= N) for (std::size_t i = 0; i + N <= before.size(); ++i) { want[i] += 1000; want[i + N - 1] += 1; }
  std::vector<int> got;
  for (auto const& x : col) got.push_back(x.id);
  CHECK_EQ(want, got, "writes");
}

struct tracked {  // counts live instances; content on the heap (ASan sees use after destruction)
  static inline int live = 0;
  std::unique_ptr<int> v;
  explicit tracked(int x) : v{std::make_unique<int>(x)} { ++live; }
  tracked(tracked const& o) : v{std::make_unique<int>(*o.v)} { ++live; }
  tracked(tracked&& o) noexcept : v{std::move(o.v)} { ++live; }
  tracked& operator=(tracked const& o) { v = std::make_unique<int>(*o.v); return *this; }
  tracked& operator=(tracked&&) = default;
  ~tracked() { --live; }
};

template <std::size_t N, template <typename...> class C>
void owned(vf::ctx& c, std::vector<int> const& k) {
  auto make = [&] { C<tracked> r; for (auto x : k) r.insert(r.end(), tracked{x}); return r; };
  auto check = [&](auto&& r, char const* f) {
    std::size_t i = 0;
    for (auto&& w : r) {
      CHECK(i + N <= k.size(), std::string("owned-too-many/") + f);
      CHECK(*std::get<0>(w).v == k[i] && *std::get<N - 1>(w).v == k[i + N - 1], std::string("owned-window/") + f, "i=", i);
      ++i;
    }
    CHECK_EQ(k.size() < N ? 0 : k.size() - N + 1, i, std::string("owned-count/") + f);
  };
  check(utl::nwise<N>(make()), "inline");
  {
    auto r = utl::nwise<N>(make());
    CHECK_EQ(static_cast<int>(k.size()), tracked::live, "owned-live");
    check(r, "kept");
    CHECK_EQ(k.size() < N ? 0 : k.size() - N + 1, r.size(), "owned-size");
    auto const r2 = std::move(r);
    check(r2, "moved");
    if (c.r.chance(1, 2)) { auto const r3 = r2; check(r3, "copied"); }
  }
  if constexpr (N == 2) check(utl::pairwise(make()), "pairwise");
  CHECK_EQ(0, tracked::live, "owned-leak");
  c.count("ranges", 3);
}

template <typename C> C build(std::vector<int> const& k) {
  C r;
  if constexpr (requires { r.push_back(rec{}); }) { int id = 0; for (auto x : k) r.push_back({x, id++}); }
  else { std::vector<rec> v; int id = 0; for (auto x : k) v.push_back({x, id++}); r.assign(v.begin(), v.end()); }
  return r;
}

template <std::size_t N>
void all(vf::ctx& c, std::vector<int> const& k) {
  switch (c.r.below(5)) {
    case 0: { auto v = build<std::vector<rec>>(k); lvalues<N>(c, v); writes<N>(c, v); break; }
#ifndef VF_LEAN
    case 1: { auto v = build<std::list<rec>>(k); lvalues<N>(c, v); writes<N>(c, v); break; }
#endif
    case 2: { auto v = build<std::deque<rec>>(k); lvalues<N>(c, v); writes<N>(c, v); break; }
#ifndef VF_LEAN
    case 3: { auto v = build<std::forward_list<rec>>(k); lvalues<N>(c, v); writes<N>(c, v); break; }
#endif
    default: { std::set<int> s(k.begin(), k.end()); lvalues<N>(c, s); break; }
  }
  if (k.size() < 300) {
#ifndef VF_LEAN
    if (c.r.chance(1, 2)) { owned<N, std::list>(c, k); return; }
#endif
    owned<N, std::vector>(c, k);
  }
}

void pair(vf::ctx& c, std::vector<int> const& k) {
  auto v = build<std::vector<rec>>(k);
  auto const el = addrs(v);
  judge<2>(c, utl::pairwise(v), el, "pairwise");
  auto const& cv = v;
  judge<2>(c, utl::pairwise(cv), el, "pairwise-const");
#ifdef VF_LEAN
  auto l = build<std::vector<rec>>(k);
#else
  auto l = build<std::list<rec>>(k);
#endif
  auto const ll = addrs(l);
  judge<2>(c, utl::pairwise(l), ll, "pairwise-list");
  std::size_t i = 0;
  auto b = utl::pairwise_begin(l);
  auto e = utl::pairwise_end(l);
  for (; b != e; ++b, ++i) {
    auto w = *b;
    CHECK(i + 1 < ll.size() && &std::get<0>(w) == ll[i] && &std::get<1>(w) == ll[i + 1], "pairwise-begin-end", i);
  }
  CHECK_EQ(k.size() < 2 ? 0 : k.size() - 1, i, "pairwise-begin-count");
  judge_size<2>(c, utl::pairwise(v), k.size());
}

void one(vf::ctx& c, std::vector<int> const& k) {
  if (!k.empty()) {
    auto h = vf::hcomb(3, k.size());
    for (auto x : k) h = vf::hcomb(h, static_cast<unsigned>(x));
    c.distinct(h);
  }
  if (c.want_sample()) c.sample(vf::cat(k));
  all<1>(c, k); all<2>(c, k); all<3>(c, k); all<4>(c, k); all<5>(c, k); all<9>(c, k);
  pair(c, k);
}
}  // namespace

SCENARIO(random, 1500, 60000) { one(c, gen::keys(c.r, gen::small_size(c.r))); }
SCENARIO(sizes, 400, 1000) { std::vector<int> k; for (unsigned i = 0; i < c.idx % 40; ++i) k.push_back(static_cast<int>(i)); one(c, k); }
SCENARIO(large, 16, 64) { one(c, gen::keys(c.r, c.r.pick({255u, 256u, 257u, 1000u, 4095u, 5000u}))); }
SCENARIO(huge, 12, 100) {  // around 16 bit counters, by position only
  auto const n = c.r.pick({32768UL, 65535UL, 65536UL, 65537UL, 70000UL});
  std::vector<int> v(n);
  std::iota(v.begin(), v.end(), 0);
  auto go = [&]<std::size_t N>(std::integral_constant<std::size_t, N>) {
    auto r = utl::nwise<N>(v);
    CHECK_EQ(n - N + 1, r.size(), "huge-size", n, " N=", N);
    std::size_t i = 0;
    for (auto&& w : r) { CHECK(i + N <= n && &std::get<0>(w) == &v[i] && &std::get<N - 1>(w) == &v[i + N - 1], "huge-window", i, " of ", n, " N=", N); ++i; }
    CHECK_EQ(n - N + 1, i, "huge-count", n, " N=", N);
    c.count("windows", i);
  };
  go(std::integral_constant<std::size_t, 1>{}); go(std::integral_constant<std::size_t, 2>{}); go(std::integral_constant<std::size_t, 7>{});
  std::size_t i = 0;
  for (auto&& w : utl::pairwise(v)) { CHECK(i + 2 <= n && &std::get<0>(w) == &v[i] && &std::get<1>(w) == &v[i + 1], "huge-pair", i, " of ", n); ++i; }
  CHECK_EQ(n - 1, i, "huge-pairs", n);
}
