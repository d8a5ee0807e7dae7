#include "gen.h"
#include "utl/concat.h"
#include "utl/repeat_n.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"

namespace {
struct hv {
  static inline long live = 0;
  std::unique_ptr<int> p;
  hv(int x = 0) : p{std::make_unique<int>(x)} { ++live; }
  hv(hv const& o) : p{o.p ? std::make_unique<int>(*o.p) : nullptr} { ++live; }
  hv(hv&& o) noexcept : p{std::move(o.p)} { ++live; }
  hv& operator=(hv const& o) { p = o.p ? std::make_unique<int>(*o.p) : nullptr; return *this; }
  hv& operator=(hv&&) = default;
  ~hv() { --live; }
  int v() const { return p ? *p : -999999; }
  friend bool operator==(hv const& a, hv const& b) { return a.v() == b.v(); }
  friend bool operator<(hv const& a, hv const& b) { return a.v() < b.v(); }
  friend bool operator>(hv const& a, hv const& b) { return a.v() > b.v(); }
  friend bool operator<=(hv const& a, hv const& b) { return a.v() <= b.v(); }
  friend bool operator>=(hv const& a, hv const& b) { return a.v() >= b.v(); }
};
int val(int x) { return x; }
int val(hv const& x) { return x.v(); }
int val(std::unique_ptr<int> const& x) { return x ? *x : -999999; }
template <typename T> int val(std::pair<const int, T> const& x) { return val(x.second); }
template <typename C> std::vector<int> vals(C const& c) { std::vector<int> v; for (auto const& x : c) v.push_back(val(x)); return v; }
template <typename C> C build(std::vector<int> const& k) { C r; for (auto x : k) r.insert(r.end(), typename C::value_type{x}); return r; }
void note(vf::ctx& c, std::vector<int> const& k, unsigned salt) {
  auto h = vf::hcomb(salt, k.size());
  for (auto x : k) h = vf::hcomb(h, static_cast<unsigned>(x));
  if (!k.empty()) c.distinct(h);
  if (c.want_sample()) c.sample(vf::cat(k));
}
long long f(int x) { return 3ll * x + 1; }

// has reserve, exposes the elements
struct sink {
  using value_type = long long;
  void reserve(std::size_t) {}
  void push_back(long long x) { d.push_back(x); }
  std::deque<long long> d;
};

template <typename C>
void conv(vf::ctx& c, C& col) {
  auto const in = vals(col);
  std::vector<long long> want;
  for (auto x : in) want.push_back(f(x));
  std::vector<int> called;
  auto op = [&](auto const& x) { called.push_back(val(x)); return f(val(x)); };
  auto chk = [&](auto const& got, char const* form) {
    CHECK_EQ(want, got, std::string(form), "of ", in);
    CHECK_EQ(in, called, std::string("calls/") + form);
    called.clear();
    CHECK_EQ(in, vals(col), std::string("input/") + form);
    c.count("conversions");
  };
  chk(utl::to_vec(col, op), "to_vec");
  chk(utl::to_vec(std::as_const(col), op), "to_vec-const");
  chk(utl::to_vec(col.begin(), col.end(), op), "to_vec-iterators");
  {
    auto const n = static_cast<std::ptrdiff_t>(in.size());
    auto const b = c.r.range(0, n), e = c.r.range(b, n);
    auto const part = utl::to_vec(std::next(col.begin(), b), std::next(col.begin(), e), op);
    CHECK_EQ(std::vector<long long>(want.begin() + b, want.begin() + e), part, "to_vec-part", b, "..", e);
    called.clear();
  }
  chk(utl::transform_to<std::vector<long long>>(col, op), "transform_to");
  { sink s; utl::transform_to(col, s, op); chk(std::vector<long long>(s.d.begin(), s.d.end()), "transform_to-out"); }
  { std::vector<long long> o{-1, -2}; utl::transform_to(col, o, op); auto w = want; w.insert(w.begin(), {-1, -2}); CHECK_EQ(w, o, "transform_to-append"); called.clear(); }
  auto const same = utl::to_vec(col);
  CHECK_EQ(in, vals(same), "to_vec-copy");
  CHECK_EQ(in, vals(col), "to_vec-copy-input");
  // operation may mutate elements of a mutable range in place
  std::set<long long> ws, gs;
  for (auto x : in) ws.insert(f(x) % 5);
  auto sop = [&](auto const& x) { called.push_back(val(x)); return f(val(x)) % 5; };
  gs = utl::to_set(col, sop);
  CHECK_EQ(ws, gs, "to_set", in);
  CHECK_EQ(in, called, "calls/to_set");
  called.clear();
#ifndef VF_FALLBACK
  gs = utl::to_set(col.begin(), col.end(), sop);
  CHECK_EQ(ws, gs, "to_set-iterators", in);
  CHECK_EQ(in, called, "calls/to_set-iterators");
  called.clear();
#endif
  CHECK_EQ(in, vals(col), "input/to_set");
  c.count("conversions", 3);
}
}  // namespace

SCENARIO(convert, 2500, 80000) {
  auto k = gen::keys(c.r, c.idx < 100 ? c.idx / 5 : gen::small_size(c.r));
  for (auto& x : k) x %= 100000000;
  note(c, k, 1);
  hv::live = 0;
  {
  switch (c.idx % 6) {
    case 0: { auto v = build<std::vector<int>>(k); conv(c, v); break; }
    case 1: { auto v = build<std::vector<hv>>(k); conv(c, v); break; }
#ifndef VF_LEAN
    case 2: { auto v = build<std::list<hv>>(k); conv(c, v); break; }
#endif
    case 3: { auto v = build<std::set<int>>(k); conv(c, v); break; }
    case 4: { std::map<int, hv> m; for (auto x : k) m.emplace(x, hv{x}); conv(c, m); break; }
#ifndef VF_LEAN
    default: { std::forward_list<int> l(k.begin(), k.end()); conv(c, l); break; }
#endif
  }
  }
  CHECK_EQ(0, hv::live, "leak");
}
SCENARIO(temporaries, 800, 20000) {
  auto k = gen::keys(c.r, gen::small_size(c.r));
  note(c, k, 2);
  hv::live = 0;
  {
    auto const a = utl::to_vec(build<std::vector<hv>>(k));
    CHECK_EQ(k, vals(a), "temp");
    auto const b = utl::to_vec(build<std::list<hv>>(k), [](hv const& x) { return hv{x.v()}; });
    CHECK_EQ(k, vals(b), "temp-op");
    // results of move-only type; operation may move out of a mutable range
    auto src = build<std::vector<hv>>(k);
#ifndef VF_LEAN
    auto const m = utl::to_vec(src, [](hv& x) { return std::move(x.p); });
    CHECK_EQ(k, vals(m), "move-only");
#endif
    // reference-returning operations are stored by value
    auto src2 = build<std::vector<hv>>(k);
    auto r = utl::to_vec(src2, [](hv& x) -> hv& { return x; });
    for (auto& x : src2) *x.p = 0;
    CHECK_EQ(k, vals(r), "by-value");
    int arr[] = {3, 1, 2};
    CHECK_EQ((std::vector<int>{6, 2, 4}), utl::to_vec(arr, [](int x) { return 2 * x; }), "array");
    CHECK_EQ((std::set<int>{0, 1}), utl::to_set(arr, [](int x) { return x % 2; }), "array-set");
  }
  CHECK_EQ(0, hv::live, "leak");
  c.count("conversions", 4);
}
SCENARIO(repeat, 800, 20000) {
  auto const n = c.r.size(c.thorough() ? 100000 : 3000);
  auto const x = static_cast<int>(c.r.range(-1000, 1000));
  c.distinct(vf::hcomb(n, static_cast<unsigned>(x)));
  hv::live = 0;
  {
    CHECK_EQ(std::vector<int>(n, x), utl::repeat_n(x, n), "repeat");
    auto const v = utl::repeat_n(hv{x}, n % 700);
    CHECK(v.size() == n % 700 && std::all_of(v.begin(), v.end(), [&](hv const& e) { return e.v() == x; }), "repeat-object");
    auto const l = utl::repeat_n<std::string, std::list<std::string>>(std::string(static_cast<std::size_t>(std::abs(x)) % 60, 'q'), n % 300);
    CHECK(l.size() == n % 300 && std::all_of(l.begin(), l.end(), [&](auto const& e) { return e == std::string(static_cast<std::size_t>(std::abs(x)) % 60, 'q'); }), "repeat-list");
    c.count("conversions", 3);
  }
  CHECK_EQ(0, hv::live, "leak");
}
SCENARIO(concat, 1500, 60000) {
  auto a = gen::keys(c.r, gen::small_size(c.r)), b = gen::keys(c.r, gen::small_size(c.r));
  note(c, a, 3);
  auto want = a;
  want.insert(want.end(), b.begin(), b.end());
  hv::live = 0;
  auto go = [&](auto x, auto const& y, char const* form) {
    auto& r = utl::concat(x, y);
    CHECK(static_cast<void const*>(&r) == static_cast<void const*>(&x), std::string("reference/") + form);
    CHECK_EQ(want, vals(x), std::string("concat/") + form);
    CHECK_EQ(b, vals(y), std::string("second/") + form);
    c.count("conversions");
  };
  {
    switch (c.r.below(4)) {
      case 0: go(build<std::vector<hv>>(a), build<std::vector<hv>>(b), "vv"); break;
      case 1: go(build<std::vector<hv>>(a), build<std::list<hv>>(b), "vl"); break;
      case 2: go(build<std::list<hv>>(a), build<std::deque<hv>>(b), "ld"); break;
      default: go(build<std::deque<int>>(a), build<std::vector<int>>(b), "dv"); break;
    }
    std::set<int> s(a.begin(), a.end()), t(b.begin(), b.end()), u = s;
    u.insert(t.begin(), t.end());
  }
  CHECK_EQ(0, hv::live, "leak");
}
SCENARIO(large, 8, 48) {
  auto k = gen::keys(c.r, c.r.pick({256u, 1000u, 20000u, 65537u}));
  for (auto& x : k) x %= 100000000;
  auto v = build<std::vector<int>>(k);
  conv(c, v);
  for (auto const n : {std::size_t{256}, std::size_t{65535}, std::size_t{65536}, std::size_t{65537}, std::size_t{70001}, static_cast<std::size_t>(131073 + c.r.below(5))}) {
    auto const x = static_cast<int>(1 + c.r.below(1000));
    auto const r = utl::repeat_n(x, n);
    CHECK(r.size() == n && std::all_of(r.begin(), r.end(), [&](int y) { return y == x; }), "large/repeat", n);
    auto const d = utl::repeat_n<short, std::deque<short>>(static_cast<short>(x), n);
    CHECK(d.size() == n && std::all_of(d.begin(), d.end(), [&](int y) { return y == x; }), "large/repeat-deque", n);
    std::vector<int> a(c.r.pick({std::size_t{0}, std::size_t{3}, n}), 1);
    auto const na = a.size();
    utl::concat(a, r);
    CHECK(a.size() == na + n && std::all_of(a.begin() + static_cast<std::ptrdiff_t>(na), a.end(), [&](int y) { return y == x; }), "large/concat", n);
    CHECK(r.size() == n, "large/concat-second", n);
    std::vector<unsigned> ids(n);
    for (std::size_t i = 0; i < n; ++i) ids[i] = static_cast<unsigned>(i);
    CHECK_EQ(n, utl::to_set(ids, [](unsigned y) { return y; }).size(), "large/to_set");
    auto const cp = utl::to_vec(ids);
    CHECK(cp == ids, "large/to_vec", n);
    CHECK(utl::to_vec(ids.begin(), ids.end(), [](unsigned y) { return y; }) == ids, "large/to_vec-iterators", n);
    CHECK((utl::transform_to<std::vector<unsigned>>(ids, [](unsigned y) { return y; }) == ids), "large/transform_to", n);
  }
}
