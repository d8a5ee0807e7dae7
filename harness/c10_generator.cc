// C10: coroutine generator vs. the plan its coroutine executes.
#include "vf.h"

#include <coroutine>
#include <concepts>

#include "utl/generator.h"

namespace {
struct boom : std::runtime_error { explicit boom(int at) : std::runtime_error{"boom"}, at{at} {} int at; };

// counts constructions/destructions by identity
struct probes {
  std::map<int, int> alive;  // id -> live count
  int next = 0;
  std::uint64_t made = 0;
  int live() const { int n = 0; for (auto const& [k, v] : alive) n += v; return n; }
};
struct probe {
  explicit probe(probes& p) : p{&p}, id{p.next++}, heap{std::make_unique<int>(id)} { ++p.alive[id]; ++p.made; }
  probe(probe const& o) : p{o.p}, id{p->next++}, heap{std::make_unique<int>(id)} { ++p->alive[id]; ++p->made; }
  probe(probe&& o) noexcept : p{o.p}, id{p->next++}, heap{std::make_unique<int>(id)} { ++p->alive[id]; ++p->made; }
  probe& operator=(probe const&) = delete;
  ~probe() { --p->alive[id]; }
  probes* p;
  int id;
  std::unique_ptr<int> heap;
};

template <typename T> T mk(int v);
template <> int mk<int>(int v) { return v; }
template <> std::string mk<std::string>(int v) { return "value-" + std::to_string(v) + std::string(static_cast<std::size_t>(v & 31), 'x'); }
template <> std::unique_ptr<int> mk<std::unique_ptr<int>>(int v) { return std::make_unique<int>(v); }
template <> std::vector<int> mk<std::vector<int>>(int v) { return std::vector<int>(static_cast<std::size_t>(v & 7), v); }
template <> double mk<double>(int v) { return v / 4.0; }

template <typename T> bool same(T const& a, int v) {
  if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return a && *a == v;
  else return a == mk<T>(v);
}

struct plan {
  std::vector<int> vals;
  int throw_at = -1;  // before yielding index
  bool nested = false, lvalues = false, conv = false;
  int started = 0, finished = 0;
};

template <typename T>
utl::generator<T> run(plan& p, probe arg, probes& ps) {
  ++p.started;
  probe local{ps};
  for (std::size_t i = 0; i <= p.vals.size(); ++i) {
    probe inner{ps};
    if (p.throw_at == static_cast<int>(i)) throw boom{static_cast<int>(i)};
    if (i == p.vals.size()) break;
    if (p.nested) { try { throw 1; } catch (int) {} }
    if constexpr (std::is_copy_assignable_v<T>) {
      if (p.lvalues && i % 2) { auto v = mk<T>(p.vals[i]); co_yield v; if (!same(v, p.vals[i])) throw std::logic_error{"yielded lvalue modified"}; continue; }
      if (p.lvalues) { auto const v = mk<T>(p.vals[i]); co_yield v; if (!same(v, p.vals[i])) throw std::logic_error{"yielded lvalue modified"}; continue; }
    }
    if constexpr (std::is_same_v<T, std::string>) {
      if (p.conv) { auto const s = mk<T>(p.vals[i]); co_yield s.c_str(); continue; }
    }
    if constexpr (std::is_same_v<T, double>) {
      if (p.conv && p.vals[i] % 4 == 0) { co_yield p.vals[i] / 4; continue; }
    }
    co_yield mk<T>(p.vals[i]);
  }
  ++p.finished;
}

template <typename T>
void scenario_for(vf::ctx& c, char const* tn) {
  std::string const k = tn;
  plan p;
  auto const n = c.r.size(40);
  for (std::size_t i = 0; i < n; ++i) p.vals.push_back(static_cast<int>(c.r.below(1000)));
  if (c.r.chance(1, 3)) p.throw_at = static_cast<int>(c.r.below(n + 1));
  p.nested = c.r.chance(1, 4); p.lvalues = c.r.chance(1, 3); p.conv = c.r.chance(1, 3);
  auto const limit = p.throw_at >= 0 ? static_cast<std::size_t>(p.throw_at) : n;
  probes ps;
  auto const how = c.r.below(7);
  auto const stop_after = c.r.chance(1, 2) ? n + 5 : c.r.below(n + 1);  // abandon early
  auto const move_at = c.r.chance(1, 2) ? c.r.below(n + 2) : n + 100;
  std::size_t got = 0;
  bool threw = false;
  c.distinct(vf::hcomb(vf::hcomb(n, static_cast<std::uint64_t>(p.throw_at + 1)), vf::hcomb(vf::hcomb(how, stop_after), vf::hcomb(move_at, vf::hstr(k)))));
  {
    std::vector<std::unique_ptr<utl::generator<T>>> slots;
    slots.push_back(std::make_unique<utl::generator<T>>(run<T>(p, probe{ps}, ps)));
    auto cur = [&]() -> utl::generator<T>& { return *slots.back(); };
    auto maybe_move = [&] {
      if (got != move_at) return;
      switch (c.r.below(3)) {
        case 0: slots.push_back(std::make_unique<utl::generator<T>>(std::move(cur()))); break;
        case 1: {  // into a live generator: its frame goes, ours stays
          plan q; q.vals = {1, 2, 3};
          auto const before = ps.live();
          auto other = std::make_unique<utl::generator<T>>(run<T>(q, probe{ps}, ps));
          if (c.r.chance(1, 2)) { CHECK(static_cast<bool>(*other), k + "/other"); }
          *other = std::move(cur());
          CHECK_EQ(before, ps.live(), k + "/overwritten-frame-kept");
          slots.push_back(std::move(other));
          if (c.r.chance(1, 2)) {  // and one that owns nothing into a live one
            auto last = std::make_unique<utl::generator<T>>(run<T>(q, probe{ps}, ps));
            if (c.r.chance(1, 2)) { CHECK(static_cast<bool>(*last), k + "/other"); }
            *last = std::move(*slots[slots.size() - 2]);
            CHECK_EQ(before, ps.live(), k + "/overwritten-frame-kept");
            *last = std::move(*slots[slots.size() - 2]);
            utl::generator<T> const from_empty{std::move(*last)};
            CHECK_EQ(before, ps.live(), k + "/frame of an empty generator");
          }
          break;
        }
        default: { auto& g = cur(); auto& h = g; g = std::move(h); }
      }
      c.count("moves");
    };
    auto take = [&] {
      T v = cur()();
      CHECK(got < limit, k + "/extra-value", got, " of ", limit);
      CHECK(same(v, p.vals[got]), k + "/value", "index ", got, " of ", n, how);
      ++got;
      c.count("values");
    };
    CHECK_EQ(0, p.started, k + "/not-lazy");
    try {
      switch (how) {
        case 0: case 1:  // test and call
          while (maybe_move(), got < stop_after && static_cast<bool>(cur())) take();
          if (got < stop_after) for (int q = 0; q < 3; ++q) CHECK(!cur(), k + "/true-after-end");
          break;
        case 2:  // repeated tests deliver nothing
          for (;;) {
            maybe_move();
            if (got >= stop_after) break;
            bool const b = static_cast<bool>(cur());
            for (auto q = c.r.below(4); q > 0; --q) CHECK_EQ(b, static_cast<bool>(cur()), k + "/test-not-idempotent", got);
            if (!b) break;
            take();
          }
          break;
        case 3:  // call without testing (values are known to follow)
          while (maybe_move(), got < std::min(stop_after, n)) take();
          break;
        case 4:  // mixed
          while (maybe_move(), got < stop_after) {
            if (got >= n || c.r.chance(1, 2)) { if (!cur()) break; if (c.r.chance(1, 2)) continue; }
            take();
          }
          break;
        default: {  // some by hand, rest collected
          auto const hand = how == 5 ? 0 : std::min<std::size_t>(c.r.below(n + 1), limit);
          while (got < hand) take();
          maybe_move();
          if (how == 6 && c.r.chance(1, 2)) (void)static_cast<bool>(cur());
          std::vector<T> v = cur().to_vec();
          CHECK_EQ(limit - got, v.size(), k + "/to_vec-size");
          for (auto const& x : v) { CHECK(same(x, p.vals[got]), k + "/to_vec-value", got); ++got; }
          CHECK(!cur(), k + "/true-after-to_vec");
          c.count("values", v.size());
        }
      }
    } catch (boom const& b) {
      threw = true;
      CHECK_EQ(p.throw_at, b.at, k + "/exception-identity");
      if (how < 5) CHECK_EQ(limit, got, k + "/exception-position");
      for (int q = 0; q < 3; ++q) CHECK(!cur(), k + "/true-after-exception");
      c.count("exceptions");
    }
    if (!threw) {
      if (how < 5) {
        if (got < stop_after && how != 3) CHECK(p.throw_at < 0 && got == n && p.finished == 1, k + "/ended-early", got, " of ", n);
      } else CHECK(p.throw_at < 0, k + "/exception-lost");
    }
    CHECK(p.started <= 1, k + "/restarted");
    if (c.r.chance(1, 2)) std::reverse(slots.begin(), slots.end());
  }
  for (auto const& [id, v] : ps.alive) CHECK_EQ(0, v, k + "/frame-object-count", id, " how=", how);
  c.count("probes", ps.made);
}
}  // namespace

SCENARIO(generator, 12000, 400000) {
  switch (c.idx % 5) {
    case 0: scenario_for<int>(c, "int"); break;
    case 1: scenario_for<std::string>(c, "string"); break;
#ifndef VF_LEAN
    case 2: scenario_for<std::unique_ptr<int>>(c, "unique_ptr"); break;
#endif
    case 3: scenario_for<std::vector<int>>(c, "vector"); break;
    default: scenario_for<double>(c, "double");
  }
}
// generators in containers, returned through functions, recursion
namespace {
utl::generator<int> count_to(int n, probe p) { for (int i = 0; i < n; ++i) co_yield i; }
utl::generator<int> tree(int depth, probes& ps) {
  if (depth > 0) {
    auto l = tree(depth - 1, ps);
    while (l) co_yield l() * 2;
    auto r = tree(depth - 1, ps);
    while (r) co_yield r() * 2 + 1;
  } else co_yield 1;
}
std::vector<int> tree_oracle(int d) { if (d == 0) return {1}; std::vector<int> o; for (auto x : tree_oracle(d - 1)) o.push_back(2 * x); for (auto x : tree_oracle(d - 1)) o.push_back(2 * x + 1); return o; }
}  // namespace
SCENARIO(containers, 600, 20000) {
  probes ps;
  {
    std::vector<utl::generator<int>> v;
    std::vector<int> lim, at;
    for (std::size_t i = 0, m = 1 + c.r.below(6); i < m; ++i) { lim.push_back(static_cast<int>(c.r.below(9))); at.push_back(0); v.emplace_back(count_to(lim.back(), probe{ps})); }
    for (int step = 0; step < 40 && !v.empty(); ++step) {
      auto const i = c.r.below(v.size());
      if (c.r.chance(1, 8)) { v.erase(v.begin() + static_cast<std::ptrdiff_t>(i)); lim.erase(lim.begin() + static_cast<std::ptrdiff_t>(i)); at.erase(at.begin() + static_cast<std::ptrdiff_t>(i)); continue; }
      bool const b = static_cast<bool>(v[i]);
      CHECK_EQ(at[i] < lim[i], b, "interleaved/test");
      if (b) { CHECK_EQ(at[i], v[i](), "interleaved/value"); ++at[i]; }
      CHECK_EQ(static_cast<int>(v.size()), ps.live(), "interleaved/frames");
    }
  }
  CHECK_EQ(0, ps.live(), "interleaved/leak");
  auto const d = static_cast<int>(c.r.below(6));
  CHECK_EQ(tree_oracle(d), tree(d, ps).to_vec(), "recursive");
  c.distinct(vf::hcomb(static_cast<unsigned>(d), ps.made)); c.count("values", 20);
  if (c.want_sample()) c.sample(vf::cat("depth ", d));
}
// more values than narrow counters hold
SCENARIO(large, 16, 200) {
  probes ps;
  auto const n = c.r.pick({255, 256, 257, 32768, 65535, 65536, 65537, 70000, 131073, 300001});
  {
    auto g = count_to(n, probe{ps});
    if (c.r.chance(1, 2)) {
      int k = 0;
      auto const move_at = c.r.chance(1, 2) ? static_cast<int>(c.r.below(static_cast<std::uint64_t>(n))) : -1;
      while (g) {
        CHECK_EQ(k, g(), "large/value");
        if (k++ == move_at) { auto h = std::move(g); g = std::move(h); }
      }
      CHECK_EQ(n, k, "large/count");
    } else {
      auto const v = g.to_vec();
      CHECK_EQ(static_cast<std::size_t>(n), v.size(), "large/to_vec-size");
      for (int k = 0; k < n; ++k) CHECK_EQ(k, v[static_cast<std::size_t>(k)], "large/to_vec-value");
    }
    CHECK(!g, "large/true-after-end");
  }
  CHECK_EQ(0, ps.live(), "large/leak");
  c.count("values", static_cast<std::uint64_t>(n));
}
