// Random pipelines over every chain of up to three adaptors, compared with the
// eager computation on a vector.
#pragma once
#include "gen.h"
#include "utl/pipes.h"
#include "utl/pipes/map.h"

namespace c33 {
// heap-backed element: dangling references and stale reads are ASan findings
struct box {
  static inline std::atomic<long> live{0};
  std::unique_ptr<int> p;
  box(int x = -77) : p{std::make_unique<int>(x)} { ++live; }
  box(box const& o) : p{o.p ? std::make_unique<int>(*o.p) : nullptr} { ++live; }
  box(box&& o) noexcept : p{std::move(o.p)} { ++live; }
  box& operator=(box const& o) { p = o.p ? std::make_unique<int>(*o.p) : nullptr; return *this; }
  box& operator=(box&&) = default;
  ~box() { --live; }
  int v() const { return p ? *p : -999999; }
  friend bool operator==(box const& a, box const& b) { return a.v() == b.v(); }
  friend bool operator<(box const& a, box const& b) { return a.v() < b.v(); }
  friend bool operator>(box const& a, box const& b) { return a.v() > b.v(); }
  friend bool operator<=(box const& a, box const& b) { return a.v() <= b.v(); }
  friend bool operator>=(box const& a, box const& b) { return a.v() >= b.v(); }
};
inline int val(int x) { return x; }
inline int val(box const& b) { return b.v(); }

struct param { int a, b; unsigned k; };
inline int fT(int x, param const& p) { return static_cast<int>((static_cast<unsigned>(x) * static_cast<unsigned>(p.a) + static_cast<unsigned>(p.b)) % 16u); }
inline bool fR(int x, param const& p) { return (vf::mix(static_cast<unsigned>(x) + 31u * static_cast<unsigned>(p.b)) % 8) < p.k % 8; }
inline bool fW(int x, param const& p) { return (vf::mix(static_cast<unsigned>(x) + 77u * static_cast<unsigned>(p.a)) % 64) >= p.k % 12; }

using params = std::array<param, 4>;

template <char Op, typename E, typename R> auto step(R&& r, param const& p) {
  if constexpr (Op == 'T') return std::forward<R>(r) | utl::transform([p](E const& x) { return E{fT(val(x), p)}; });
  else if constexpr (Op == 'R') return std::forward<R>(r) | utl::remove_if([p](E const& x) { return fR(val(x), p); });
  else if constexpr (Op == 'W') return std::forward<R>(r) | utl::take_while([p](E const& x) { return fW(val(x), p); });
  else { static_assert(Op == 'U'); return std::forward<R>(r) | utl::unique(); }
}
template <typename E, std::size_t I, char... Ops> struct chain;
template <typename E, std::size_t I> struct chain<E, I> {
  template <typename R> static auto go(R&& r, params const&) { return std::forward<R>(r); }
};
template <typename E, std::size_t I, char Op> struct chain<E, I, Op> {
  template <typename R> static auto go(R&& r, params const& p) { return step<Op, E>(std::forward<R>(r), p[I]); }
};
template <typename E, std::size_t I, char Op, char Op2, char... Rest> struct chain<E, I, Op, Op2, Rest...> {
  template <typename R> static auto go(R&& r, params const& p) { return chain<E, I + 1, Op2, Rest...>::go(step<Op, E>(std::forward<R>(r), p[I]), p); }
};

inline std::vector<int> eager(std::vector<int> v, std::string_view ops, params const& ps) {
  for (std::size_t i = 0; i < ops.size(); ++i) {
    auto const& p = ps[i];
    std::vector<int> o;
    if (ops[i] == 'T') { for (auto x : v) o.push_back(fT(x, p)); }
    if (ops[i] == 'R') { for (auto x : v) if (!fR(x, p)) o.push_back(x); }
    if (ops[i] == 'W') { for (auto x : v) { if (!fW(x, p)) break; o.push_back(x); } }
    if (ops[i] == 'U') { for (auto x : v) if (o.empty() || o.back() != x) o.push_back(x); }
    v = o;
  }
  return v;
}

inline void check_seq(vf::ctx& c, std::vector<int> const& want, std::vector<int> const& got, std::string const& key, std::vector<int> const& src) {
  CHECK_EQ(want, got, key, "source ", src);
  c.count("pipelines");
  c.count("elements", want.size());
}
template <typename C> std::vector<int> vals(C const& c) { std::vector<int> v; for (auto const& x : c) v.push_back(val(x)); return v; }

// all sinks on one pipeline; mk() builds a fresh pipeline object
template <bool Full, typename E, typename Mk>
void sinks(vf::ctx& c, Mk mk, std::vector<int> const& want, std::vector<int> const& src, std::string const& name) {
  auto K = [&](char const* s) { return std::string(s) + "/" + name; };
  check_seq(c, want, vals(mk() | utl::vec()), K("vec"), src);
  {
    auto r = mk();
    check_seq(c, want, vals(r | utl::vec()), K("vec-kept"), src);
    check_seq(c, want, vals(r | utl::vec()), K("vec-again"), src);
    std::vector<int> got;
    auto i = r | utl::iterable();
    for (auto&& x : i) got.push_back(val(x));
    check_seq(c, want, got, K("iterable-lvalue"), src);
    check_seq(c, want, vals(r | utl::vec()), K("vec-after-iterable"), src);
  }
  {
    std::vector<int> got;
    for (auto&& x : mk() | utl::iterable()) got.push_back(val(x));
    check_seq(c, want, got, K("iterable"), src);
  }
  if constexpr (Full) {
    std::vector<int> fe;
    mk() | utl::for_each([&](E const& x) { fe.push_back(val(x)); });
    check_seq(c, want, fe, K("for_each"), src);
    check_seq(c, want, vals(mk() | utl::emplace_back<std::deque<E>>()), K("emplace_back"), src);
    check_seq(c, want, vals(mk() | utl::emplace_back_to<std::list<E>>()), K("emplace_back_to"), src);
    auto sorted = want; std::sort(sorted.begin(), sorted.end());
    auto uniq = sorted; uniq.erase(std::unique(uniq.begin(), uniq.end()), uniq.end());
    check_seq(c, uniq, vals(mk() | utl::to<std::set<E>>()), K("to-set"), src);
    check_seq(c, sorted, vals(mk() | utl::insert<std::multiset<E>>()), K("insert"), src);
    check_seq(c, uniq, vals(mk() | utl::emplace<std::set<E>>()), K("emplace"), src);
    int const m = static_cast<int>(c.r.below(16));
    CHECK_EQ(static_cast<std::size_t>(std::count_if(want.begin(), want.end(), [&](int x) { return x % 3 == m % 3; })), mk() | utl::count([&](E const& x) { return val(x) % 3 == m % 3; }), K("count"), src);
    auto const f = mk() | utl::find([&](E const& x) { return val(x) == m; });
    bool const has = std::find(want.begin(), want.end(), m) != want.end();
    CHECK_EQ(has, f.has_value(), K("find"), m, " in ", want);
    if (has) CHECK_EQ(m, val(*f), K("find-value"));
    auto const acc = mk() | utl::accumulate([](std::string s, E const& x) { return s + static_cast<char>('a' + val(x) % 26); }, std::string{"s:"});
    std::string wacc = "s:"; for (auto x : want) wacc += static_cast<char>('a' + x % 26);
    CHECK_EQ(wacc, acc, K("accumulate"), src);
    long long ws = 0; int wm = -5; for (auto x : want) { ws += x; wm = std::max(wm, x); }
    if constexpr (std::is_same_v<E, int>) {
      CHECK_EQ(static_cast<std::size_t>(ws), static_cast<std::size_t>(mk() | utl::sum()), K("sum"), src);
      CHECK_EQ(static_cast<double>(wm), static_cast<double>(mk() | utl::max<int>{-5}), K("max"), src);
      if (!want.empty()) {
        double const a = mk() | utl::avg(), wa = static_cast<double>(ws) / static_cast<double>(want.size());
        CHECK(std::abs(a - wa) <= 1e-9 * std::max(1.0, std::abs(wa)), K("avg"), "want ", wa, " got ", a, " ", src);
      }
    }
    c.count("sinks", 11);
  }
}

template <typename E, char... Ops, typename Mk>
void run(vf::ctx& c, Mk const& mk, std::vector<int> const& src, char const* source) {
  params ps;
  for (auto& p : ps) p = {static_cast<int>(c.r.below(16)), static_cast<int>(c.r.below(16)), static_cast<unsigned>(c.r.below(1000))};
  std::string const ops{Ops...};
  auto const want = eager(src, ops, ps);
  if (src.size() > 1 && sizeof...(Ops)) c.distinct(vf::hcomb(vf::hstr(ops + source), vf::hcomb(want.size(), ps[0].k)));
  sinks<(sizeof...(Ops) <= 1), E>(c, [&] { return chain<E, 0, Ops...>::go(mk(), ps); }, want, src, std::string(source) + "|" + ops);
}

inline std::vector<int> source_values(vf::ctx& c, std::size_t n) {
  std::vector<int> v;
  auto const dom = 1 + c.r.below(15);
  int last = 0;
  bool const runs = c.r.chance(1, 2);
  for (std::size_t i = 0; i < n; ++i) { if (!runs || i == 0 || c.r.chance(1, 3)) last = static_cast<int>(c.r.below(dom + 1)); v.push_back(last); }
  return v;
}
inline std::size_t some_size(vf::ctx& c) { return c.idx < 200 ? c.idx % 9 : c.r.below(4) ? c.r.below(40) : c.r.below(300); }

// every chain of length <= 3 over {T,R,W,U}; pick selects one at run time
template <typename E, char A, char B, typename Mk>
void third(vf::ctx& c, Mk const& mk, std::vector<int> const& s, char const* n, unsigned x) {
  switch (x) {
    case 0: return run<E, A, B, 'T'>(c, mk, s, n);
    case 1: return run<E, A, B, 'R'>(c, mk, s, n);
    case 2: return run<E, A, B, 'W'>(c, mk, s, n);
    case 3: return run<E, A, B, 'U'>(c, mk, s, n);
    default: return run<E, A, B>(c, mk, s, n);
  }
}
template <typename E, char A, typename Mk>
void second(vf::ctx& c, Mk const& mk, std::vector<int> const& s, char const* n, unsigned x) {
  switch (x % 5) {
    case 0: return third<E, A, 'T'>(c, mk, s, n, x / 5);
    case 1: return third<E, A, 'R'>(c, mk, s, n, x / 5);
    case 2: return third<E, A, 'W'>(c, mk, s, n, x / 5);
    case 3: return third<E, A, 'U'>(c, mk, s, n, x / 5);
    default: return run<E, A>(c, mk, s, n);
  }
}
template <typename E, typename Mk>
void any(vf::ctx& c, Mk const& mk, std::vector<int> const& s, char const* n) {
  auto const x = static_cast<unsigned>(c.r.below(25));
  switch (c.r.below(5)) {
    case 0: return second<E, 'T'>(c, mk, s, n, x);
    case 1: return second<E, 'R'>(c, mk, s, n, x);
    case 2: return second<E, 'W'>(c, mk, s, n, x);
    case 3: return second<E, 'U'>(c, mk, s, n, x);
    default: return run<E>(c, mk, s, n);
  }
}
template <typename E> std::vector<E> boxes(std::vector<int> const& v) { std::vector<E> r; for (auto x : v) r.emplace_back(x); return r; }
}  // namespace c33
