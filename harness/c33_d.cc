#include "c33_pipes.h"
using namespace c33;
// sinks directly on containers, temporaries and pointers to containers
SCENARIO(direct, 1500, 50000) {
  auto const s = source_values(c, some_size(c));
  auto v = boxes<box>(s);
  auto const& cv = v;
  auto vi = s;
  auto const m = static_cast<int>(c.r.below(16));
  auto is = [&](box const& x) { return x.v() == m; };
  auto isi = [&](int x) { return x == m; };
  auto const wc = static_cast<std::size_t>(std::count(s.begin(), s.end(), m));
  CHECK_EQ(wc, v | utl::count(is), "count"); CHECK_EQ(wc, cv | utl::count(is), "count-const");
  CHECK_EQ(wc, boxes<box>(s) | utl::count(is), "count-temporary"); CHECK_EQ(wc, &v | utl::count(is), "count-pointer");
  CHECK_EQ(wc != 0, (v | utl::find(is)).has_value(), "find"); CHECK_EQ(wc != 0, (cv | utl::find(is)).has_value(), "find-const");
  auto const ft = boxes<box>(s) | utl::find(is);
  CHECK_EQ(wc != 0, ft.has_value(), "find-temporary");
  if (ft) CHECK_EQ(m, ft->v(), "find-temporary-value");
  auto add = [](std::uint64_t a, box const& x) { return a * 31 + static_cast<std::uint64_t>(x.v()); };
  std::uint64_t wa = 7; for (auto x : s) wa = wa * 31 + static_cast<std::uint64_t>(x);
  { CHECK_EQ(wa, v | utl::accumulate(add, std::uint64_t{7}), "accumulate"); CHECK_EQ(wa, boxes<box>(s) | utl::accumulate(add, std::uint64_t{7}), "accumulate-temporary"); CHECK_EQ(wa, &cv | utl::accumulate(add, std::uint64_t{7}), "accumulate-pointer"); }
  long long ws = 0; int wm = -9; for (auto x : s) { ws += x; wm = std::max(wm, x); }
  CHECK_EQ(static_cast<std::size_t>(ws), vi | utl::sum(), "sum"); CHECK_EQ(static_cast<std::size_t>(ws), std::vector<int>(s) | utl::sum(), "sum-temporary");
  CHECK_EQ(static_cast<std::size_t>(ws), &vi | utl::sum(), "sum-pointer");
  CHECK_EQ(static_cast<double>(wm), vi | utl::max<int>{-9}, "max"); CHECK_EQ(static_cast<double>(wm), std::list<int>(s.begin(), s.end()) | utl::max<int>{-9}, "max-temporary");
  std::set<int> ws2(s.begin(), s.end());
  CHECK_EQ(ws2, vi | utl::insert<std::set<int>>(), "insert"); CHECK_EQ(ws2, std::vector<int>(s) | utl::insert<std::set<int>>(), "insert-temporary");
  CHECK_EQ(ws2, std::deque<int>(s.begin(), s.end()) | utl::emplace<std::set<int>>(), "emplace-temporary"); CHECK_EQ(ws2, vi | utl::emplace<std::set<int>>(), "emplace");
  CHECK_EQ(s, vals(v), "source-modified"); CHECK_EQ(s, vi, "source-modified-int");
  // a raw container into take_while
  auto const p = param{static_cast<int>(c.r.below(16)), 0, static_cast<unsigned>(c.r.below(1000))};
  CHECK_EQ(eager(s, "W", {p}), vals(v | utl::take_while([&](box const& x) { return fW(x.v(), p); }) | utl::vec()), "take_while-container");
  c.count("pipelines", 22);
  c.distinct(vf::hcomb(s.size(), static_cast<unsigned>(m)));
}
// numbers of every type through sum/max/avg/accumulate
SCENARIO(numbers, 1500, 50000) {
  auto const n = 1 + c.r.size(80);
  std::vector<int> vi; std::vector<double> vd; std::vector<std::int64_t> vl; std::vector<std::uint64_t> vu; std::vector<std::uint8_t> vb; std::vector<float> vfl;
  for (std::size_t i = 0; i < n; ++i) {
    auto const x = c.r.range(-1000000000, 1000000000);
    vi.push_back(static_cast<int>(x)); vd.push_back(static_cast<double>(c.r.range(-4000, 4000)) / 16); vl.push_back(x * 1000);
    vu.push_back(c.r.next() >> 24); vb.push_back(static_cast<std::uint8_t>(x)); vfl.push_back(static_cast<float>(c.r.range(-400, 400)) / 4);
  }
  auto avg_ok = [&](auto const& v, char const* k) {
    double w = 0, mag = 0; for (auto x : v) { w += static_cast<double>(x); mag += std::abs(static_cast<double>(x)); }
    w /= static_cast<double>(v.size());
    double const g = utl::all(v) | utl::avg();
    CHECK(std::abs(w - g) <= 1e-9 * std::max(1.0, mag), std::string("avg/") + k, "want ", w, " got ", g, " of ", v);
  };
  avg_ok(vi, "int"); avg_ok(vd, "double"); avg_ok(vl, "int64"); avg_ok(vu, "uint64"); avg_ok(vb, "uint8"); avg_ok(vfl, "float");
  auto sum_ok = [&](auto const& v, char const* k) {
    std::size_t w = 0; for (auto x : v) w += static_cast<std::size_t>(x);
    CHECK_EQ(w, static_cast<std::size_t>(v | utl::sum()), std::string("sum/") + k, v);
  };
  sum_ok(vl, "int64"); sum_ok(vu, "uint64"); sum_ok(vb, "uint8"); sum_ok(vi, "int");
  auto max_ok = [&](auto const& v, auto init, char const* k) {
    auto w = init; for (auto x : v) w = std::max<decltype(init)>(w, x);
    CHECK_EQ(static_cast<double>(w), static_cast<double>(v | utl::max<decltype(init)>{init}), std::string("max/") + k, v);
  };
  max_ok(vi, std::numeric_limits<int>::min(), "int"); max_ok(vd, -1e300, "double"); max_ok(vl, std::int64_t{-4000000000000}, "int64"); max_ok(vb, std::uint8_t{0}, "uint8"); max_ok(vfl, -1e30f, "float"); max_ok(vi, std::numeric_limits<int>::max(), "int-high-init");
  auto below = [&](auto v, auto by, char const* k) {  // everything below or above some initial values
    using T = typename decltype(v)::value_type;
    for (auto& x : v) x = static_cast<T>(c.idx % 3 == 0 ? -std::abs(x / 2) - by : c.idx % 3 == 1 ? std::abs(x / 2) + by : x);
    for (T const init : {T(0), T(1), T(-1), v.front(), v.back(), *std::min_element(v.begin(), v.end()), *std::max_element(v.begin(), v.end()), std::numeric_limits<T>::lowest()}) max_ok(v, init, k);
  };
  below(vi, 1, "int-around"); below(vd, 0.5, "double-around"); below(vl, std::int64_t{3}, "int64-around"); below(vfl, 0.25f, "float-around");
  c.count("pipelines", 16);
  c.distinct(vf::hcomb(n, static_cast<unsigned>(vi[0])));
}
// maps, strings, mutation through for_each, nested pipelines, move-only results
SCENARIO(kinds, 1000, 30000) {
  auto const s = source_values(c, some_size(c));
  std::map<int, std::string> m;
  for (auto x : s) m[x] = gen::word(c.r, 30);
  std::vector<std::string> wk;
  for (auto const& [k, v] : m) if (k % 2) wk.push_back(v + "#" + std::to_string(k));
  CHECK_EQ(wk, (utl::all(m) | utl::remove_if([](auto const& kv) { return kv.first % 2 == 0; }) | utl::transform([](auto const& kv) { return kv.second + "#" + std::to_string(kv.first); }) | utl::vec()), "map");
  auto v = boxes<box>(s);
  utl::all(v) | utl::for_each([](box& x) { *x.p += 100; });
  std::vector<int> w; for (auto x : s) w.push_back(x + 100);
  CHECK_EQ(w, vals(v), "for_each-mutates");
  auto ptrs = utl::all(v) | utl::transform([](box const& x) { return std::make_unique<int>(x.v()); }) | utl::vec();
  CHECK(ptrs.size() == s.size() && std::equal(w.begin(), w.end(), ptrs.begin(), [](int a, auto const& b) { return a == *b; }), "move-only-results");
  std::vector<std::vector<int>> const vv{s, {}, s};
  auto const flat = utl::all(vv) | utl::transform([](auto const& x) { return x | utl::sum(); }) | utl::vec();
  std::size_t const t = std::accumulate(s.begin(), s.end(), std::size_t{0});
  CHECK_EQ((std::vector<std::size_t>{t, 0, t}), flat, "nested");
  auto const um = utl::all(s) | utl::transform([](int x) { return std::make_pair(x, 2 * x); }) | utl::to<std::map<int, int>>();
  std::map<int, int> wm; for (auto x : s) wm.emplace(x, 2 * x);
  CHECK_EQ(wm, um, "to-map");
  auto const up = utl::all(s) | utl::transform([](int x) { return std::make_pair(x, 2 * x); }) | utl::emplace<std::map<int, int>>();
  CHECK_EQ(wm, up, "emplace-map");
  auto const ui = utl::all(s) | utl::transform([](int x) { return std::make_pair(x, 2 * x); }) | utl::insert<std::map<int, int>>();
  CHECK_EQ(wm, ui, "insert-map");
  c.count("pipelines", 8);
  c.distinct(s.size());
}
// more elements, and runs longer, than narrow counters hold
SCENARIO(large, 16, 200) {
  auto const n = c.r.pick({255U, 256U, 257U, 32769U, 65536U, 65537U, 70000U});
  std::vector<int> s;
  switch (c.r.below(3)) {
    case 0: s.assign(n, 3); break;  // one run
    case 1: for (unsigned i = 0; i < n; ++i) s.push_back(static_cast<int>(i % 9)); break;
    default: s.assign(n, 7); s.back() = 2; break;
  }
  std::size_t const wc = static_cast<std::size_t>(std::count(s.begin(), s.end(), s.front()));
  std::size_t const ws = static_cast<std::size_t>(std::accumulate(s.begin(), s.end(), 0LL));
  CHECK_EQ(wc, s | utl::count([&](int x) { return x == s.front(); }), "large-count", n);
  CHECK_EQ(ws, s | utl::sum(), "large-sum", n);
  CHECK_EQ(n, utl::all(s) | utl::accumulate([](std::size_t a, int) { return a + 1; }, std::size_t{0}), "large-accumulate", n);
  { double const a = utl::all(s) | utl::avg(); CHECK(std::abs(a - static_cast<double>(ws) / n) < 1e-9, "large-avg", n, " got ", a); }
  CHECK_EQ(static_cast<double>(*std::max_element(s.begin(), s.end())), static_cast<double>(s | utl::max<int>{-1}), "large-max", n);
  CHECK(s == (utl::all(s) | utl::vec()), "large-vec", n);
  { auto const g = utl::all(s) | utl::emplace_back<std::deque<int>>(); CHECK(std::equal(s.begin(), s.end(), g.begin(), g.end()), "large-emplace_back", n); }
  { auto const u = utl::all(s) | utl::unique() | utl::vec(); auto w = s; w.erase(std::unique(w.begin(), w.end()), w.end()); CHECK(w == u, "large-unique", n); }
  { auto const u = utl::all(s) | utl::remove_if([&](int x) { return x == s.front(); }) | utl::vec(); CHECK_EQ(n - wc, u.size(), "large-remove_if", n); }
  { auto const u = utl::all(s) | utl::take_while([](int x) { return x != 2; }) | utl::vec(); CHECK_EQ(static_cast<std::size_t>(std::find(s.begin(), s.end(), 2) - s.begin()), u.size(), "large-take_while", n); }
  { std::size_t k = 0; for (auto&& x : utl::all(s) | utl::transform([](int x) { return x + 1; }) | utl::iterable()) { CHECK(k < n && x == s[k] + 1, "large-iterable", k); ++k; } CHECK_EQ(n, k, "large-iterable-count"); }
  { auto const u = utl::iota(0U, n) | utl::vec(); CHECK(u.size() == n && u.back() == n - 1, "large-iota", n); }
  { auto const f = utl::iota(0U, n) | utl::find([&](unsigned x) { return x == n - 1; }); CHECK(f && *f == n - 1, "large-find", n); }
  { auto const u = utl::iota(std::int64_t{-3000000000}, std::int64_t{-3000000000} + n) | utl::vec(); CHECK(u.size() == n && u.front() == -3000000000 && u.back() == -3000000001 + n, "large-iota-wide", n); }
  { std::size_t calls = 0; auto const u = utl::generate([&] { return calls++; }) | utl::take_while([&](std::size_t x) { return x < n; }) | utl::vec(); CHECK(u.size() == n && calls == n + 1, "large-generate", n, " calls ", calls); }
  { int k = 0; auto const st = utl::all(s) | utl::transform([&](int) { return k++; }) | utl::to<std::set<int>>(); CHECK_EQ(n, st.size(), "large-to-set"); }
  c.count("pipelines", 16);
}
