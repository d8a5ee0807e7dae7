// C44: failures passing through the sequential operations. Every program is run
// once undisturbed to count the points at which user code (function calls,
// copies, comparisons of elements) or an allocation could fail, then again with
// each of these points failing. Watched: which exception arrives, calls made
// after the failure, live objects, heap balance, constant inputs.
#include "gen.h"
#include "heap_watch.h"

#include <iostream>
#include <new>

#include "utl/cmd_line_parser.h"
#include "utl/concat.h"
#include "utl/enumerate.h"
#include "utl/equal_ranges.h"
#include "utl/equal_ranges_linear.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/for_each_bit_set.h"
#include "utl/generator.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include "utl/helpers/algorithm.h"
#include "utl/insert_sorted.h"
#include "utl/is_uniform.h"
#include "utl/join.h"
#include "utl/match.h"
#include "utl/nwise.h"
#include "utl/overloaded.h"
#include "utl/pairwise.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/file.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/parser/split.h"
#include "utl/pipes.h"
#include "utl/power_set_intersection.h"
#include "utl/raii.h"
#include "utl/read_file.h"
#include "utl/repeat_n.h"
#include "utl/sort_by.h"
#include "utl/sorted_diff.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"
#include "utl/verify.h"
#include "utl/zip.h"

namespace {
struct boom { std::uint64_t at; int const* origin; };

// the failure plan; armed only inside the call under test
struct plan_t {
  bool armed = false;
  bool fired = false;
  std::uint64_t user = 0, alloc = 0;     // events seen while armed
  std::uint64_t user_at = 0, alloc_at = 0;  // which one fails (0 = none)
  std::uint64_t after = 0;               // user events after the failure
} plan;
int const token = 0;
inline void tick() {
  if (!plan.armed) return;
  if (plan.fired) { ++plan.after; return; }
  if (++plan.user == plan.user_at) { plan.fired = true; throw boom{plan.user, &token}; }
}
inline bool alloc_fails() {
  if (!plan.armed || plan.fired) return false;
  if (++plan.alloc == plan.alloc_at) { plan.fired = true; return true; }
  return false;
}
std::int64_t live = 0;
}  // namespace

void* operator new(std::size_t n) {
  if (alloc_fails()) throw std::bad_alloc{};
  if (auto* p = std::malloc(n ? n : 1)) return p;
  throw std::bad_alloc{};
}
void* operator new[](std::size_t n) { return operator new(n); }
// (never made to fail: its caller may well have another way, as std::stable_sort has)
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { std::free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { std::free(p); }

namespace {
// an element: owns memory, copying and comparing may fail, moving may not
struct el {
  el() : el(0) {}
  explicit el(int x) : v{static_cast<int*>(std::malloc(sizeof(int)))} { *v = x; ++live; }
  el(el const& o) : v{nullptr} { tick(); v = static_cast<int*>(std::malloc(sizeof(int))); *v = o.get(); ++live; }
  el(el&& o) noexcept : v{o.v} { o.v = nullptr; ++live; }
  el& operator=(el const& o) { tick(); if (!v) v = static_cast<int*>(std::malloc(sizeof(int))); *v = o.get(); return *this; }
  el& operator=(el&& o) noexcept { std::swap(v, o.v); return *this; }
  ~el() { std::free(v); --live; }
  int get() const { return v ? *v : -777; }
  friend bool operator==(el const& a, el const& b) { tick(); return a.get() == b.get(); }
  friend bool operator!=(el const& a, el const& b) { tick(); return a.get() != b.get(); }
  friend bool operator<(el const& a, el const& b) { tick(); return a.get() < b.get(); }
  int* v;
};
std::vector<el> els(std::vector<int> const& k) { std::vector<el> v; v.reserve(k.size()); for (auto x : k) v.emplace_back(x); return v; }
std::vector<int> ints(std::vector<el> const& v) { std::vector<int> k; for (auto const& x : v) k.push_back(x.get()); return k; }

// what a program gets: its inputs' generator and the armed section
struct env {
  vf::ctx& c;
  vf::rng r;
  bool failed = false;
  char const* name = "";
  template <typename F> void call(F&& f) {
    plan.armed = true;
    bool threw = false;
    std::string what;
    try {
      f();
      plan.armed = false;
    } catch (boom const& b) {
      plan.armed = false;
      threw = true;
      if (plan.user_at == 0 || b.at != plan.user_at || b.origin != &token) what = "another exception than the one thrown";
    } catch (std::bad_alloc const&) {
      plan.armed = false;
      threw = true;
      if (plan.alloc_at == 0) what = "bad_alloc out of nowhere";
    } catch (std::exception const& e) {
      plan.armed = false;
      threw = true;
      what = std::string{"other exception: "} + e.what();
    }
    CHECK(what.empty(), std::string{"wrong-exception/"} + name, what, " user=", plan.user_at, " alloc=", plan.alloc_at);
    CHECK(threw == plan.fired, std::string{threw ? "exception-without-failure/" : "exception-swallowed/"} + name, "user=", plan.user_at, " alloc=", plan.alloc_at);
    CHECK(plan.after == 0, std::string{"called-after-failure/"} + name, plan.after, " calls, user=", plan.user_at, " alloc=", plan.alloc_at);
    failed = threw;
  }
  void same(std::vector<int> const& want, std::vector<el> const& v) { CHECK_EQ(want, ints(v), std::string{"input-changed/"} + name, "user=", plan.user_at, " alloc=", plan.alloc_at); }
  void check(bool b, char const* what) { CHECK(b, std::string{what} + "/" + name, "user=", plan.user_at, " alloc=", plan.alloc_at); }
};
using prog = void (*)(env&);
bool lt(el const& a, el const& b) { tick(); return a.get() < b.get(); }
bool eq(el const& a, el const& b) { tick(); return a.get() == b.get(); }

std::vector<int> few(vf::rng& r, bool sorted = false) {
  std::vector<int> k;
  for (auto n = r.below(7); n; --n) k.push_back(static_cast<int>(r.below(4)));
  if (sorted) std::sort(k.begin(), k.end());
  return k;
}

void p_joins(env& e) {
  auto const ka = few(e.r, true), kb = few(e.r, true);
  auto const a = els(ka), b = els(kb);
  auto const kind = e.r.below(4);
  e.call([&] {
    auto m = [](auto, auto, auto, auto) { tick(); };
    auto s = [](auto, auto) { tick(); };
    switch (kind) {
      case 0: utl::inner_join(a, b, lt, m); break;
      case 1: utl::left_join(a, b, lt, m, s); break;
      case 2: utl::full_join(a, b, lt, m, s, s); break;
      default: utl::full_join(begin(a), end(a), begin(b), end(b), m, s, s); break;
    }
  });
  e.same(ka, a); e.same(kb, b);
}
void p_diff(env& e) {
  auto const ka = few(e.r, true), kb = few(e.r, true);
  auto const a = els(ka), b = els(kb);
  e.call([&] { utl::sorted_diff(a, b, lt, eq, utl::overloaded{[](utl::op, el const&) { tick(); }, [](el const&, el const&) { tick(); }}); });
  e.same(ka, a); e.same(kb, b);
}
void p_powerset(env& e) {
  auto const ka = few(e.r, true), kb = few(e.r, true);
  auto const a = els(ka), b = els(kb);
  e.call([&] { utl::power_set_intersection(a, b, [](el const&, el const&) { tick(); }, lt); });
  e.same(ka, a); e.same(kb, b);
}
void p_equal_ranges(env& e) {
  auto const k = few(e.r);
  auto v = els(k);
  auto const kind = e.r.below(3);
  e.call([&] {
    if (kind == 0) utl::equal_ranges(v, [](auto, auto) { tick(); });
    else if (kind == 1) utl::equal_ranges(v, lt, [](auto, auto) { tick(); });
    else utl::equal_ranges_linear(v, eq, [](auto, auto) { tick(); });
  });
  auto got = ints(v), want = k;
  if (kind == 2) e.check(got == want, "input-changed");
  (void)got;
}
void p_nwise(env& e) {
  auto const k = few(e.r);
  auto const v = els(k);
  auto const own = e.r.chance(1, 2);
  e.call([&] {
    if (own) for (auto const& [x, y] : utl::nwise<2>(std::vector<el>(v))) { tick(); (void)x; (void)y; }
    else for (auto const& [x, y, z] : utl::nwise<3>(v)) { tick(); (void)x; (void)y; (void)z; }
  });
  e.same(k, v);
}
void p_zip(env& e) {
  auto const k = few(e.r);
  auto const a = els(k), b = els(k);
  auto const own = e.r.chance(1, 2);
  e.call([&] {
    if (own) for (auto const& [x, y] : utl::zip(std::vector<el>(a), b)) { tick(); (void)x; (void)y; }
    else for (auto const& [x, y] : utl::czip(a, b)) { tick(); (void)x; (void)y; }
  });
  e.same(k, a); e.same(k, b);
}
void p_enumerate(env& e) {
  auto const k = few(e.r);
  auto const v = els(k);
  auto const own = e.r.chance(1, 2);
  e.call([&] {
    if (own) for (auto const& [i, x] : utl::enumerate(std::vector<el>(v))) { tick(); (void)x; (void)i; }
    else for (auto const& [i, x] : utl::enumerate(v)) { tick(); (void)x; (void)i; }
  });
  e.same(k, v);
}
void p_pipes(env& e) {
  auto const k = few(e.r);
  auto const v = els(k);
  auto const kind = e.r.below(9);
  auto const own = e.r.chance(1, 3);
  auto twice = [](el const& x) { tick(); return el{x.get() * 2}; };
  auto odd = [](el const& x) { tick(); return x.get() % 2 != 0; };
  e.call([&] {
    auto with = [&](auto&& src) {
      switch (kind) {
        case 0: (void)(std::move(src) | utl::transform(twice) | utl::vec()); break;
        case 1: (void)(std::move(src) | utl::remove_if(odd) | utl::transform(twice) | utl::vec()); break;
        case 2: std::move(src) | utl::take_while([](el const& x) { tick(); return x.get() < 3; }) | utl::for_each([](el const&) { tick(); }); break;
        case 3: (void)(std::move(src) | utl::unique() | utl::vec()); break;
        case 4: (void)(std::move(src) | utl::transform([](el const& x) { tick(); return x.get(); }) | utl::sum()); break;
        case 5: (void)(std::move(src) | utl::count([](el const& x) { tick(); return x.get() == 1; })); break;
        case 6: for (auto const& x : std::move(src) | utl::transform(twice) | utl::iterable()) { tick(); (void)x; } break;
        case 7: (void)(std::move(src) | utl::transform(twice) | utl::emplace_back<std::vector<el>>()); break;
        default: (void)(std::move(src) | utl::transform(twice) | utl::emplace<std::set<el>>()); break;
      }
    };
    if (own) with(utl::all(std::vector<el>(v))); else with(utl::all(v));
  });
  e.same(k, v);
}
void p_convert(env& e) {
  auto const k = few(e.r);
  auto const v = els(k);
  auto const kind = e.r.below(7);
  auto twice = [](el const& x) { tick(); return el{x.get() * 2}; };
  std::vector<el> out = els(few(e.r));
  auto const before = ints(out);
  e.call([&] {
    switch (kind) {
      case 0: (void)utl::to_vec(v); break;
      case 1: (void)utl::to_vec(v, twice); break;
      case 2: (void)utl::to_vec(begin(v), end(v), twice); break;
      case 3: (void)utl::to_set(v, twice); break;
      case 4: (void)utl::repeat_n(v.empty() ? out.size() == 99 ? out[0] : el{5} : v[0], 4); break;
      case 5: utl::transform_to(v, out, twice); break;
      default: utl::concat(out, v); break;
    }
  });
  e.same(k, v);
  if (kind == 5) {  // what was there stays (for concat the container decides)
    auto const got = ints(out);
    e.check(got.size() >= before.size() && std::equal(before.begin(), before.end(), got.begin()), "destination-lost-elements");
  }
}
void p_inplace(env& e) {
  auto const sorted = few(e.r, true);
  auto const k = few(e.r);
  auto v = els(e.r.chance(1, 2) ? k : sorted);
  auto s = els(sorted);
  el const x{static_cast<int>(e.r.below(5))};
  auto const kind = e.r.below(6);
  auto const n = v.size();
  e.call([&] {
    switch (kind) {
      case 0: (void)utl::insert_sorted(s, x); break;
      case 1: (void)utl::insert_sorted(s, x, lt); break;
      case 2: utl::erase(v, x); break;
      case 3: utl::erase_if(v, [](el const& y) { tick(); return y.get() == 2; }); break;
      case 4: utl::erase_duplicates(v); break;
      default: utl::erase_duplicates(v, lt, eq); break;
    }
  });
  if (e.failed && kind < 2) e.check(ints(s) == sorted, "failed-insertion-changed-the-collection");
  e.check(v.size() <= n, "grew");
}
void p_sort_by(env& e) {
  auto const k = few(e.r);
  auto a = els(k), b = els(k);
  e.call([&] { (void)utl::sort_by(a, b); });
  e.same(k, a); e.same(k, b);
}
void p_predicates(env& e) {
  auto const k = few(e.r);
  auto v = els(k);
  auto const kind = e.r.below(8);
  auto p = [](el const& x) { tick(); return x.get() == 2; };
  el const x{2};
  e.call([&] {
    switch (kind) {
      case 0: (void)utl::all_of(v, p); break;
      case 1: (void)utl::any_of(v, p); break;
      case 2: (void)utl::none_of(v, p); break;
      case 3: (void)utl::find_if(v, p); break;
      case 4: (void)utl::count_if(v, p); break;
      case 5: (void)utl::is_uniform(v); break;
      case 6: (void)utl::find(v, x); break;
      default: utl::for_each_set_bit(static_cast<unsigned>(0x155U), [](auto) { tick(); }); break;
    }
  });
  e.same(k, v);
}
void p_maps(env& e) {
  std::map<int, el> m;
  std::map<el, std::size_t> ix;
  for (auto x : few(e.r)) { m.emplace(x, el{x}); ix.emplace(el{x}, ix.size()); }
  auto const n = m.size(), ni = ix.size();
  auto const key = static_cast<int>(e.r.below(6));
  auto const kind = e.r.below(2);
  el const ek{key};
  e.call([&] {
    if (kind == 0) (void)utl::get_or_create(m, key, [&] { tick(); return el{key}; });
    else (void)utl::get_or_create_index(ix, ek);
  });
  if (e.failed) e.check(m.size() == n && ix.size() == ni, "failed-creation-changed-the-map");
}
utl::generator<std::shared_ptr<el>> produce(std::vector<el> const& v) {
  for (auto const& x : v) { tick(); co_yield std::make_shared<el>(x.get()); }
}
void p_generator(env& e) {
  auto const k = few(e.r);
  auto const v = els(k);
  auto const kind = e.r.below(2);
  e.call([&] {
    auto g = produce(v);
    if (kind == 0) (void)g.to_vec();
    else while (g) { auto const x = g(); tick(); }
  });
  e.same(k, v);
}
void p_guards(env& e) {
  int n = 0;
  e.call([&] {
    UTL_FINALLY([&] { ++n; });
    auto const g = utl::make_finally([&] { n += 10; });
    tick();
    auto const x = utl::make_raii(3, [&](int) { n += 100; });
    std::string const s(100, 'x');
    tick();
  });
  e.check(n == 111 || (e.failed && plan.user_at == 1 && n == 11), "cleanup");
}
struct row { utl::csv_col<std::string, UTL_NAME("name")> name; utl::csv_col<int, UTL_NAME("n")> n; };
std::string csv_text(vf::rng& r) {
  std::string s = "n,name,other\n";
  for (auto k = r.below(4); k; --k) s += std::to_string(r.below(99)) + ",\"a longer text, that needs the heap\"\"" + gen::word(r) + "\",z\n";
  return s;
}
void p_csv(env& e) {
  auto const s = csv_text(e.r);
  utl::cstr const v{s.data(), s.size()};
  auto const kind = e.r.below(4);
  using t = std::tuple<std::string, int>;
  e.call([&] {
    switch (kind) {
      case 0: (void)utl::read<t>(v, {{"name", "n"}}); break;
      case 1: { std::vector<t> o; utl::read<t>(v, o, {{"name", "n"}}); break; }
      case 2: (void)(utl::line_range{utl::make_buf_reader(v)} | utl::csv<row>() | utl::vec()); break;
      default: utl::line_range{utl::make_buf_reader(v, [](std::size_t) { tick(); })} | utl::csv<row>() | utl::for_each([](row const&) { tick(); }); break;
    }
  });
}
void p_split(env& e) {
  std::string const s = "12,a longer text that needs the heap,3.5,\"q\"";
  std::string const t = "a,b,,c\nd\r\ne";
  auto const kind = e.r.below(6);
  e.call([&] {
    utl::cstr const v{s.data(), s.size()}, w{t.data(), t.size()};
    switch (kind) {
      case 0: (void)utl::split<',', int, std::string, double, std::string>(v); break;
      case 1: utl::for_each_token(w, ',', [](utl::cstr) { tick(); }); break;
      case 2: utl::for_each_token_numbered(w, ',', [](utl::cstr, unsigned) { tick(); }); break;
      case 3: utl::for_each_line(w, [](utl::cstr) { tick(); }); break;
      case 4: for (auto const l : utl::lines{w}) { tick(); (void)l.to_str(); } break;
      default: (void)utl::parse<std::string>(v); (void)utl::parse<std::filesystem::path>(v); (void)v.to_str(); break;
    }
  });
}
struct opts {
  utl::cmd_line_flag<std::string, UTL_LONG("--name"), UTL_SHORT("-n"), UTL_DESC("a description of some length"), utl::required> name;
  utl::cmd_line_flag<int, UTL_LONG("--port"), UTL_DESC("port")> port{7};
};
void p_flags(env& e) {
  char const* argv[] = {"prog", "--name", "a value that does not fit into the string object", "--port", "55"};
  auto const kind = e.r.below(2);
  e.call([&] { if (kind) (void)utl::parse_flags<opts>(5, argv); else { opts o; (void)o; } });
}
std::string file_path;
void p_files(env& e) {
  auto const kind = e.r.below(4);
  std::string text = gen::word(e.r, 200) + std::string(50, '.');
  { FILE* f = std::fopen(file_path.c_str(), "wb"); std::fwrite(text.data(), 1, text.size(), f); std::fclose(f); }
  auto const fds = [] { int n = 0; for (int i = 3; i < 64; ++i) n += ::fcntl(i, F_GETFD) != -1; return n; };
  auto const before = fds();
  auto escaped = false;
  e.call([&] {
    switch (kind) {
      case 0:  // reports every failure by an empty optional
        try {
          if (utl::read_file(file_path.c_str()) || !plan.fired) break;
        } catch (std::exception const&) { escaped = true; }
        throw std::bad_alloc{};
      case 1: (void)utl::file(file_path.c_str(), "r").content_str(); break;
      case 2: { utl::mmap_reader m{file_path.c_str()}; tick(); (void)m.read_line().to_str(); tick(); break; }
      default: { utl::file f{file_path.c_str(), "r"}; tick(); auto const b = f.content(); std::string const copy{reinterpret_cast<char const*>(b.data()), b.size()}; tick(); break; }
    }
  });
  e.check(fds() == before, "descriptor-left-open");
  e.check(!escaped, "exception-from-read_file");
}
void p_verify(env& e) {
  auto const kind = e.r.below(2);
  e.call([&] {
    if (kind == 0) utl::verify_ex(true, boom{0, nullptr});
    else try { utl::verify_silent(false, "a message with a number {} that is longer than a small string", 5); } catch (std::runtime_error const&) {}
  });
}
struct { char const* name; prog fn; } const progs[] = {
    {"join", p_joins}, {"sorted_diff", p_diff}, {"power_set", p_powerset}, {"equal_ranges", p_equal_ranges}, {"nwise", p_nwise}, {"zip", p_zip},
    {"enumerate", p_enumerate}, {"pipes", p_pipes}, {"pipes", p_pipes}, {"convert", p_convert}, {"inplace", p_inplace}, {"sort_by", p_sort_by}, {"predicates", p_predicates},
    {"maps", p_maps}, {"generator", p_generator}, {"guards", p_guards}, {"csv", p_csv}, {"split", p_split}, {"flags", p_flags}, {"files", p_files}, {"verify", p_verify}};

// one run; returns the number of user and allocation points passed
std::pair<std::uint64_t, std::uint64_t> once(vf::ctx& c, std::size_t p, std::uint64_t seed, std::uint64_t user_at, std::uint64_t alloc_at, bool warm) {
  plan = {};
  plan.user_at = user_at;
  plan.alloc_at = alloc_at;
  vf::note(vf::cat(progs[p].name, " user=", user_at, " alloc=", alloc_at));
  auto const l0 = live;
  auto const b0 = heap::blocks.load();
  bool fired = false;
  {
    env e{c, vf::rng{seed}};
    e.name = progs[p].name;
    progs[p].fn(e);
    fired = plan.fired;
  }
  auto const b1 = heap::blocks.load();
  CHECK_EQ(l0, live, std::string{"objects-left/"} + progs[p].name, "user=", user_at, " alloc=", alloc_at);
  if (!warm) CHECK_EQ(b0, b1, std::string{"memory-left/"} + progs[p].name, "user=", user_at, " alloc=", alloc_at);
  if (user_at || alloc_at) CHECK(fired, "harness-replay", "failure point not reached: the program is not deterministic");
  return {plan.user, plan.alloc};
}
}  // namespace

SCENARIO(failures, 4200, 120000) {
  heap::install();
  if (file_path.empty()) { auto const* w = std::getenv("VF_WORKDIR"); file_path = std::string{w ? w : "."} + "/f.txt"; }
  std::clog.rdbuf(nullptr);
  auto const p = c.idx / 8 % std::size(progs);
  auto const seed = c.r.next();
  (void)once(c, p, seed, 0, 0, true);
  auto const [user, alloc] = once(c, p, seed, 0, 0, false);
  auto pick = [&](std::uint64_t n, auto&& f) {
    if (n <= 40) { for (std::uint64_t k = 1; k <= n; ++k) f(k); }
    else for (int i = 0; i < 40; ++i) f(1 + c.r.below(n));
  };
  pick(user, [&](std::uint64_t k) { once(c, p, seed, k, 0, false); c.count("user-failures"); });
  pick(alloc, [&](std::uint64_t k) { once(c, p, seed, 0, k, false); c.count("allocation-failures"); });
  c.count("points", user + alloc);
  if (user + alloc) c.distinct(vf::hcomb(seed, p));
  if (c.want_sample(12)) c.sample(vf::cat(progs[p].name, ": ", user, " user points, ", alloc, " allocations"), 12);
}
