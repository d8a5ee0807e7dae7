// C07: displayed value, bounds, lost updates, callbacks.
#include "conc.h"
#include "tracker_model.h"

#include <thread>
#include <vector>

#include "utl/progress_tracker.h"

namespace {
tracker_cfg draw(vf::ctx& c, utl::progress_tracker& t) {
  tracker_cfg k;
  if (c.r.chance(1, 4)) return k;
  if (c.r.chance(2, 3)) {
    switch (c.r.below(5)) {
      case 0: k.low = static_cast<float>(c.r.below(50)); k.high = k.low + static_cast<float>(c.r.below(60)); break;
      case 1: k.low = -static_cast<float>(c.r.below(100)); k.high = static_cast<float>(c.r.below(100)); break;
      case 2: k.low = static_cast<float>(c.r.unit() * 10); k.high = k.low + static_cast<float>(c.r.unit() * 10); break;
      case 3: k.low = 0; k.high = static_cast<float>(c.r.pick({1, 2, 7, 1000, 65536})); break;
      default: k.low = k.high = static_cast<float>(c.r.below(100)); break;
    }
    t.out_bounds(k.low, k.high);
  }
  if (c.r.chance(1, 2)) {
    k.mod = c.r.pick({1.F, 2.F, 5.F, 10.F, 0.5F, 0.1F, 3.F, 33.F, 200.F});
    t.out_mod(k.mod);
  }
  if (c.r.chance(2, 3)) {
    k.in_high = c.r.pick<std::size_t>({0, 1, 2, 3, 7, 10, 99, 100, 101, 1000, 12345, 1000000007ULL, std::size_t{1} << 40});
    t.in_high(k.in_high);
  }
  return k;
}
std::size_t draw_in(vf::ctx& c, std::size_t high) {
  switch (c.r.below(8)) {
    case 0: return 0;
    case 1: return high;
    case 2: return high + 1 + c.r.below(100);
    case 3: return high ? high - 1 : 0;
    case 4: return high / 2 + c.r.below(3);
    case 5: return c.r.chance(1, 8) ? ~std::size_t{0} : c.r.next() >> c.r.below(60);
    default: return c.r.below(high + 1);
  }
}
std::string info(tracker_cfg const& k) { return vf::cat("bounds [", k.low, ",", k.high, "] step ", k.mod, " input maximum ", k.in_high, "; "); }
}  // namespace

// one thread: every operation against the model
SCENARIO(sequential, 60000, 1500000) {
  int calls = 0;
  float seen = -12345;
  utl::progress_tracker t{[&](utl::progress_tracker const& x) { ++calls; seen = x.out_.load(); }};
  auto const k = draw(c, t);
  auto const inc = t.increment_fn();
  auto const upd = t.update_fn();
  std::size_t in = 0;
  float shown = t.out_;
  CHECK(k.in_high == 0 ? shown >= k.low && shown <= k.high : shown == k.low, "initial value", info(k), "shows ", shown);
  std::string hist;
  auto const n = 1 + c.r.below(12);
  for (std::size_t i = 0; i < n; ++i) {
    calls = 0;
    auto const v = draw_in(c, k.in_high);
    switch (c.r.below(6)) {
      case 0: case 1: hist += " update(" + std::to_string(v) + ")"; in = v; t.update(v); break;
      case 2: hist += " monotonic(" + std::to_string(v) + ")"; in = std::max(in, v); t.update_monotonic(v); break;
      case 3: hist += " update_fn(" + std::to_string(v) + ")"; in = std::max(in, v); upd(v); break;
      case 4: {
        auto const d = c.r.below(k.in_high / 3 + 2);
        if (in > ~std::size_t{0} - d) continue;
        hist += " increment(" + std::to_string(d) + ")"; in += d; t.increment(d); break;
      }
      default:
        if (in == ~std::size_t{0}) continue;
        hist += " increment"; ++in;
        if (c.r.chance(1, 2)) t.increment(); else inc();
        break;
    }
    float const now = t.out_;
    CHECK(now >= k.low && now <= k.high, "value outside the bounds", info(k), "shows ", now, " after", hist);
    CHECK(shows(k, in, now), "displayed value", info(k), "input ", in, " shows ", now, " after", hist);
    CHECK_EQ(now != shown ? 1 : 0, calls, "callbacks of one update", info(k), shown, " -> ", now, " after", hist);
    if (calls) { CHECK_EQ(now, seen, "value seen by the callback", info(k), "after", hist); c.count("callbacks"); }
    else c.count("no-change");
    shown = now;
    c.count("updates");
  }
  c.distinct(vf::hstr(info(k) + hist));
  if (c.want_sample()) c.sample(info(k) + hist);
}

// equal steps of the input step through the bounds
SCENARIO(sweep, 1200, 20000) {
  int calls = 0;
  utl::progress_tracker t{[&](utl::progress_tracker const&) { ++calls; }};
  tracker_cfg k;
  k.in_high = 1 + c.r.below(400);
  k.low = static_cast<float>(c.r.below(20));
  k.high = k.low + static_cast<float>(1 + c.r.below(100));
  k.mod = c.r.pick({1.F, 1.F, 2.F, 5.F, 0.25F});
  t.out_bounds(k.low, k.high).out_mod(k.mod).in_high(k.in_high);
  calls = 0;
  float last = t.out_;
  int changes = 0;
  for (std::size_t i = 1; i <= k.in_high + 3; ++i) {
    t.increment();
    float const now = t.out_;
    CHECK(now >= last, "value went back while counting up", info(k), last, " -> ", now);
    CHECK(shows(k, i, now), "displayed value", info(k), "input ", i, " shows ", now);
    changes += now != last;
    last = now;
  }
  CHECK_EQ(changes, calls, "callbacks over a whole run", info(k));
  c.count("sweeps");
  c.distinct(vf::hstr(info(k)));
}

namespace {
enum { CALL = 1, RET, BEGUN, SHOWN, READ };
struct op { char kind; std::size_t v; };
// may `final` be the input after some order of the operations that respects
// which ones were over before another began?
struct possible {
  std::vector<op> const& ops;
  std::vector<std::uint32_t> before;  // mask of operations that precede i
  std::set<std::pair<std::uint32_t, std::size_t>> seen;
  std::set<std::size_t> finals;
  void go(std::uint32_t done, std::size_t in) {
    if (!seen.emplace(done, in).second) return;
    if (done == (1U << ops.size()) - 1) { finals.insert(in); return; }
    for (std::size_t i = 0; i < ops.size(); ++i) {
      if (done >> i & 1U || (before[i] & ~done)) continue;
      auto const v = ops[i].v;
      go(done | 1U << i, ops[i].kind == 'u' ? v : ops[i].kind == 'm' ? std::max(in, v) : in + v);
    }
  }
};

void concurrent(vf::ctx& c, std::vector<char> const& kinds) {
  auto cfg = conc::draw(c);
  auto const threads = 2 + c.r.below(3);
  std::vector<std::vector<std::size_t>> of(threads);  // op indices per thread
  std::vector<op> ops;
  auto const n = threads + c.r.below(6);
  std::size_t const top = c.r.pick({5U, 20U, 100U});
  for (std::size_t i = 0; i < n; ++i) {
    op o{kinds[c.r.below(kinds.size())], 0};
    o.v = o.kind == 'i' ? c.r.below(4) : c.r.below(top + 5);
    of[c.r.below(threads)].push_back(i);
    ops.push_back(o);
  }
  tracker_cfg k;
  k.in_high = top;
  if (c.r.chance(1, 2)) { k.high = static_cast<float>(top); }  // shows the input itself
  else if (c.r.chance(1, 2)) { k.low = 10; k.high = 60; k.mod = 5; }
  float shown = -1, first = -1;
  bool reader = c.r.chance(1, 3);
  std::atomic<std::int64_t> nth{0};
  conc::session(c, cfg, [&] {
    utl::progress_tracker t{[&](utl::progress_tracker const& x) {
      std::int64_t const me = ++nth;
      vfs::log(BEGUN, me);
      auto const v = x.out_.load();
      vfs::log(SHOWN, static_cast<std::int64_t>(v * 1000), me);
    }};
    t.out_bounds(k.low, k.high).out_mod(k.mod).in_high(k.in_high);
    first = t.out_;
    (void)vfs::take_log();
    std::vector<std::thread> ts;
    for (std::size_t w = 0; w < threads; ++w) {
      ts.emplace_back([&, w] {
        for (auto const i : of[w]) {
          vfs::log(CALL, static_cast<std::int64_t>(i));
          auto const o = ops[i];
          if (o.kind == 'u') t.update(o.v); else if (o.kind == 'm') t.update_monotonic(o.v); else t.increment(o.v);
          vfs::log(RET, static_cast<std::int64_t>(i));
        }
      });
    }
    if (reader) for (int i = 0; i < 8; ++i) { auto const v = t.out_.load(); vfs::log(READ, static_cast<std::int64_t>(v * 1000)); vfs::pause(); }
    for (auto& x : ts) x.join();
    shown = t.out_;
  });
  auto const l = vfs::take_log();
  auto const info_ = [&] {
    std::string s = info(k);
    for (std::size_t w = 0; w < threads; ++w) { s += " [thread"; for (auto i : of[w]) s += std::string{" "} + ops[i].kind + std::to_string(ops[i].v); s += "]"; }
    return s + " | " + conc::show(l);
  };
  possible p{ops, std::vector<std::uint32_t>(ops.size(), 0), {}, {}};
  std::uint32_t over = 0;
  std::int64_t last = -1, last_begun = 0;
  for (auto const& e : l) if (e.what == BEGUN) last_begun = e.a;
  unsigned calls = 0, open = 0;
  bool overlap = false;
  for (auto const& e : l) {
    switch (e.what) {
      case CALL: p.before[static_cast<std::size_t>(e.a)] = over; overlap = overlap || open; ++open; break;
      case RET: over |= 1U << e.a; --open; break;
      case BEGUN: break;
      default:
        CHECK(e.a >= static_cast<std::int64_t>(k.low * 1000) && e.a <= static_cast<std::int64_t>(k.high * 1000), "value outside the bounds", "value*1000 ", e.a, " ", info_());
        if (e.what == SHOWN) { if (e.b == last_begun) last = e.a; ++calls; }
        break;
    }
  }
  p.go(0, 0);
  bool ok = false;
  for (auto const f : p.finals) ok = ok || shows(k, f, shown);
  CHECK(ok, "value once all updates have returned", "shows ", shown, " possible inputs ", p.finals, " ", info_());
  if (calls) CHECK_EQ(static_cast<std::int64_t>(shown * 1000), last, "value seen by the last callback", info_());
  else CHECK(shown == first, "value changed without a callback", "shows ", shown, " ", info_());
  c.count("concurrent-runs");
  if (overlap) c.count("overlapping-runs");
  if (calls) c.count("concurrent-callbacks", calls);
  if (p.finals.size() > 1) c.count("runs-with-several-outcomes");
  if (c.want_sample(1) && overlap) c.sample(info_());
}
}  // namespace

SCENARIO(concurrent_mixed, 12000, 600000) { concurrent(c, {'u', 'm', 'i'}); }
SCENARIO(concurrent_increments, 8000, 400000) { concurrent(c, {'i'}); }
SCENARIO(concurrent_monotonic, 8000, 400000) { concurrent(c, {'m'}); }
SCENARIO(concurrent_updates, 8000, 400000) { concurrent(c, {'u'}); }
SCENARIO(increments_and_monotonic, 6000, 300000) { concurrent(c, {'m', 'i', 'i'}); }

// updates that do not change what is shown do not call back, from any thread
SCENARIO(no_change, 1500, 40000) {
  auto cfg = conc::draw(c);
  auto const threads = 2 + c.r.below(3);
  std::atomic<int> calls{0};
  auto const base = 100 + c.r.below(50) * 100;
  auto const seed = c.r.next();
  conc::session(c, cfg, [&] {
    utl::progress_tracker t{[&](utl::progress_tracker const&) { ++calls; }};
    t.in_high(10000);
    t.update(base);
    calls = 0;
    std::vector<std::thread> ts;
    for (std::size_t w = 0; w < threads; ++w) ts.emplace_back([&, w] {
      vf::rng r{vf::hcomb(seed, w)};
      for (int i = 0; i < 4; ++i) {  // stays within half a step of base
        if (r.chance(1, 2)) t.update(base - 40 + r.below(50)); else t.update_monotonic(base + r.below(10));
      }
    });
    for (auto& x : ts) x.join();
  });
  CHECK_EQ(0, calls.load(), "callback although the value stayed the same", "threads ", threads);
  c.count("no-change-runs");
}

// many increments from a parallel run: none lost
SCENARIO(counting, 300, 8000) {
  auto cfg = conc::draw(c);
  auto const threads = 2 + c.r.below(5), per = 1 + c.r.below(60);
  float shown = -1;
  conc::session(c, cfg, [&] {
    utl::progress_tracker t{[](utl::progress_tracker const&) {}};
    t.out_bounds(0, static_cast<float>(threads * per)).in_high(threads * per);
    std::vector<std::thread> ts;
    for (std::size_t w = 0; w < threads; ++w) ts.emplace_back([&] { auto const f = t.increment_fn(); for (std::size_t i = 0; i < per; ++i) f(); });
    for (auto& x : ts) x.join();
    shown = t.out_;
  });
  CHECK_EQ(static_cast<float>(threads * per), shown, "increments lost", "threads ", threads, " each ", per);
  c.count("counted", threads * per);
}
