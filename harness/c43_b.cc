#define VF_NO_MAIN
#include "c43_progs.h"

#include "utl/concat.h"
#include "utl/enumerate.h"
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/for_each_bit_set.h"
#include "utl/generator.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include "utl/helpers/algorithm.h"
#include "utl/init_from.h"
#include "utl/insert_sorted.h"
#include "utl/is_uniform.h"
#include "utl/join.h"
#include "utl/match.h"
#include "utl/nwise.h"
#include "utl/overloaded.h"
#include "utl/pairwise.h"
#include "utl/parser/buffer.h"
#include "utl/pipes.h"
#include "utl/power_set_intersection.h"
#include "utl/progress_tracker.h"
#include "utl/raii.h"
#include "utl/repeat_n.h"
#include "utl/sort_by.h"
#include "utl/sorted_diff.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"
#include "utl/zip.h"

namespace c43 {
namespace {
std::uint64_t u(int x) { return static_cast<std::uint64_t>(x); }
void joins(vf::rng& r, shared_t const& s, hash& h) {
  auto const d = static_cast<std::ptrdiff_t>(r.below(s.a.size() + 1));
  std::vector<int> const own(s.b.begin(), s.b.end() - std::min<std::ptrdiff_t>(d, std::distance(s.b.begin(), s.b.end())));
  for (auto const* b : {&s.b, &own}) {
    utl::full_join(s.a, *b, [](int x, int y) { here(); return x < y; }, [&](auto a0, auto a1, auto b0, auto b1) { h.add(u(*a0)); h.add(u(static_cast<int>(a1 - a0))); h.add(u(static_cast<int>(b1 - b0))); },
                   [&](auto a0, auto a1) { h.add(u(*a0)); h.add(u(static_cast<int>(a1 - a0))); }, [&](auto b0, auto b1) { h.add(u(*b0) + 1); h.add(u(static_cast<int>(b1 - b0))); });
    utl::power_set_intersection(s.a, *b, [&](int const& x, int const& y) { h.add(u(x)); h.add(u(y)); }, [](int x, int y) { here(); return x < y; });
    utl::sorted_diff(s.a, *b, [](int x, int y) { here(); return x < y; }, [](int x, int y) { here(); return x == y; }, utl::overloaded{[&](utl::op o, int x) { h.add(u(x) * 2 + (o == utl::op::kAdd)); }, [&](int x, int y) { h.add(u(x)); h.add(u(y)); }});
  }
}
void ranges(vf::rng& r, shared_t const& s, hash& h) {
  auto v = s.raw;
  for (auto& x : v) x %= static_cast<int>(1 + r.below(20));
  utl::equal_ranges_linear(v, [&](auto b, auto e) { h.add(u(*b)); h.add(u(static_cast<int>(e - b))); });
  utl::equal_ranges(v, [&](auto b, auto e) { h.add(u(*b)); h.add(u(static_cast<int>(e - b))); });
  for (auto const& [i, x] : utl::enumerate(s.raw)) { h.add(i); h.add(u(x)); }
  for (auto const& [x, y] : utl::pairwise(s.a)) { h.add(u(x)); h.add(u(y)); }
  for (auto const& [x, y, z] : utl::nwise<3>(v)) { h.add(u(x)); h.add(u(y)); h.add(u(z)); }
  for (auto const& [x, y] : utl::zip(s.raw, v)) { h.add(u(x)); h.add(u(y)); }
  try { for (auto const& [x, y] : utl::czip(s.raw, std::vector<int>(s.raw.size() + r.below(2)))) { h.add(u(x)); h.add(u(y)); } } catch (std::exception const&) { h.add(7); }
}
void pipes(vf::rng& r, shared_t const& s, hash& h) {
  auto const m = static_cast<int>(2 + r.below(5));
  auto const v = utl::all(s.raw) | utl::transform([&](int x) { here(); return x * 3 + m; }) | utl::remove_if([&](int x) { here(); return x % m == 0; }) | utl::take_while([](int x) { here(); return x != 77; }) | utl::vec();
  for (auto x : v) h.add(u(x));
  h.add(u(utl::all(s.words) | utl::transform([](std::string const& w) { here(); return static_cast<int>(w.size()); }) | utl::sum()));
  h.add(utl::all(s.a) | utl::unique() | utl::count([](int x) { here(); return x % 3 != 0; }));
  for (auto x : utl::iota(0, 10) | utl::transform([&](int y) { return y * m; }) | utl::iterable()) h.add(u(x));
  utl::all(std::vector<std::string>{s.words}) | utl::for_each([&](std::string const& w) { h.add(w); });
}
void inplace(vf::rng& r, shared_t const& s, hash& h) {
  auto v = s.raw;
  utl::erase_if(v, [&](int x) { here(); return x % 7 == static_cast<int>(r.below(7)); });
  utl::erase(v, v.empty() ? 0 : v[0]);
  utl::erase_duplicates(v);
  for (int i = 0; i < 5; ++i) h.add(utl::insert_sorted(v, static_cast<int>(r.below(40))).second);
  for (auto x : v) h.add(u(x));
  auto order = s.raw;
  auto ids = utl::to_vec(s.raw, [](int x) { here(); return std::to_string(x); });
  auto [a, b] = utl::sort_by(order, ids);
  for (auto& x : b) h.add(x);
  utl::concat(a, v);
  h.add(a.size());
  for (auto const& x : utl::to_set(s.words, [](std::string const& w) { here(); return w.substr(0, 2); })) h.add(x);
  for (auto const& x : utl::repeat_n(s.words.empty() ? std::string{} : s.words[0], 3)) h.add(x);
  h.add(utl::is_uniform(v)); h.add(utl::is_uniform(s.words.begin(), s.words.end(), [](std::string const& w) { here(); return w.size(); }));
  h.add(utl::all_of(s.raw, [](int x) { here(); return x > 3; })); h.add(utl::any_of(s.raw, [](int x) { here(); return x == 3; }));
  h.add(u(static_cast<int>(utl::count_if(s.raw, [](int x) { here(); return x % 2 == 0; }))));
  utl::for_each_set_bit(r.next(), [&](std::size_t i) { h.add(i); });
}
struct el {  // compared and copied by functions that may use the library, too
  int v = 0;
  el() = default;
  el(int x) : v{x} {}
  el(el const& o) : v{o.v} { here(); }
  el& operator=(el const& o) { v = o.v; here(); return *this; }
  friend bool operator==(el const& a, el const& b) { here(); return a.v == b.v; }
  friend bool operator<(el const& a, el const& b) { here(); return a.v < b.v; }
};
void elements(vf::rng& r, shared_t const& s, hash& h) {
  auto const m = static_cast<int>(2 + r.below(12));
  std::vector<el> v;
  for (auto x : s.raw) v.emplace_back(x % m);
  auto put = [&](auto const& c) { for (auto const& x : c) h.mix(u(x.v)); };
  utl::equal_ranges_linear(v, [&](auto b, auto e) { h.add(u(b->v)); h.add(u(static_cast<int>(e - b))); });
  put(utl::all(v) | utl::unique() | utl::vec());
  put(utl::to_vec(v, [](el const& x) { return el{x.v + 1}; }));
  put(utl::to_set(v, [](el const& x) { return x; }));
  put(utl::repeat_n(el{m}, 3));
  h.add(utl::is_uniform(v));
  auto const ids = utl::to_vec(v, [](el const& x) { return std::to_string(x.v); });
  auto const [so, si] = utl::sort_by(v, ids);
  put(so);
  for (auto const& x : si) h.add(x);
  auto w = v;
  utl::erase(w, el{1});
  put(w);
  utl::erase_duplicates(w);
  put(w);
  for (int i = 0; i < 4; ++i) h.add(utl::insert_sorted(w, el{static_cast<int>(r.below(12))}).second);
  put(w);
  utl::concat(w, v);
  put(w);
  std::vector<el> a(v), b(w);
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  utl::inner_join(a, b, [&](auto a0, auto a1, auto b0, auto b1) { h.add(u(a0->v)); h.add(u(static_cast<int>(a1 - a0))); h.add(u(static_cast<int>(b1 - b0))); });
  std::map<el, int> mp;
  for (auto const& x : v) h.add(u(utl::get_or_create(mp, x, [&] { here(); return static_cast<int>(mp.size()); })));
}
void maps(vf::rng& r, shared_t const& s, hash& h) {
  std::map<std::string, std::size_t> m;
  std::map<std::string, std::string> n;
  for (int i = 0; i < 12; ++i) {
    auto const k = s.words.empty() ? std::string{"k"} : s.words[r.below(s.words.size())];
    h.add(utl::get_or_create_index(m, k));
    h.add(utl::get_or_create(n, k, [&] { here(); return k + k; }));
    if (auto it = s.dict.find(k); it != s.dict.end()) h.add(u(it->second));
  }
}
utl::generator<std::string> gen_words(shared_t const& s, std::size_t n) {
  auto const guard = utl::make_finally([] { here(); });
  for (std::size_t i = 0; i < n && i < s.words.size(); ++i) { here(); co_yield s.words[i] + "!"; here(); }
}
void generators(vf::rng& r, shared_t const& s, hash& h) {
  auto g = gen_words(s, r.below(9));
  while (g) h.add(g());
  for (auto const& w : gen_words(s, r.below(9)).to_vec()) h.add(w);
  auto left = gen_words(s, 9);
  if (left) h.add(left());
}
void guards(vf::rng& r, shared_t const& s, hash& h) {
  std::uint64_t n = 0;
  try {
    UTL_FINALLY([&] { here(); ++n; });
    auto g = utl::make_finally([&] { here(); n += 10; });
    auto g2 = std::move(g);
    auto const x = utl::make_raii(static_cast<int>(r.below(9)), [&](int v) { here(); n += u(v) * 100; });
    if (r.chance(1, 2)) throw 1;
  } catch (int) { n += 5; }
  h.add(n);
  utl::buffer b{s.text.data(), s.text.size()};
  auto b2 = std::move(b);
  b2.resize(b2.size() / 2 + r.below(30));
  h.add(b2.size());
  if (b2.size() && !s.text.empty()) h.add(b2.data()[0]);
}
struct shape { virtual ~shape() = default; };
struct circle : shape { int r = 0; };
struct box : shape { int w = 0; };
struct src { int a; std::string b; std::vector<int>* c; };
struct dst { std::string& b; std::vector<int>& c; };
void dispatch(vf::rng& r, shared_t const& s, hash& h) {
  circle ci; ci.r = static_cast<int>(r.below(9));
  box bo; bo.w = 3;
  shape& x = r.chance(1, 2) ? static_cast<shape&>(ci) : bo;
  h.add(u(utl::match(&x, [](circle* c) { here(); return c->r; }, [](box* b) { here(); return b->w + 100; })));
  auto v = s.raw;
  src o{3, "text", r.chance(1, 2) ? &v : nullptr};
  auto const d = utl::init_from<dst>(o);
  h.add(d.has_value());
  if (d) { d->b += "x"; h.add(o.b); h.add(d->c.size()); }
}
void trackers(vf::rng& r, shared_t const&, hash& h) {  // trackers of one's own
  std::uint64_t calls = 0;
  utl::progress_tracker t{[&](utl::progress_tracker const& p) { ++calls; h.add(static_cast<std::uint64_t>(p.out_.load())); }};
  t.status("own").out_bounds(10.F, 90.F).in_high(50);
  for (int i = 0; i < 5; ++i) { t.update(r.below(50)); t.increment(r.below(3)); t.update_monotonic(r.below(60)); }
  h.add(static_cast<std::uint64_t>(t.out_.load()));
  h.add(calls);
}
}  // namespace
prog const algorithms[] = {{"joins", joins}, {"ranges", ranges}, {"pipes", pipes}, {"inplace", inplace}, {"elements", elements}, {"maps", maps}, {"generators", generators}, {"guards", guards}, {"dispatch", dispatch}, {"trackers", trackers}};
std::size_t const n_algorithms = std::size(algorithms);
}  // namespace c43
