// C08: chained configuration updates of a tracker.
#include "conc.h"
#include "tracker_model.h"

#include <cmath>
#include <thread>
#include <vector>

#include "utl/progress_tracker.h"

namespace {
using upd = utl::progress_tracker::tracker_update;
struct setting {
  char kind;  // s status, p show_progress, r reset, b bounds, m mod, h in_high
  std::string text;
  bool show = true;
  float a = 0, b = 0;
  std::size_t n = 0;
  bool valid() const { return kind == 'b' ? a <= b : kind == 'm' ? a > 0 : true; }
};
struct model {
  tracker_cfg k;
  std::string status;
  bool show = true;
  std::size_t in = 0;
  bool operator==(model const& o) const { return k.low == o.k.low && k.high == o.k.high && k.mod == o.k.mod && k.in_high == o.k.in_high && status == o.status && show == o.show; }
};
std::string text(setting const& s) {
  switch (s.kind) {
    case 's': return ".status(" + vf::esc(s.text, 20) + ")";
    case 'p': return s.show ? ".show_progress(1)" : ".show_progress(0)";
    case 'r': return ".reset_bounds()";
    case 'b': return vf::cat(".out_bounds(", s.a, ",", s.b, ")");
    case 'm': return vf::cat(".out_mod(", s.a, ")");
    default: return vf::cat(".in_high(", s.n, ")");
  }
}
// applies the setting, says whether it changed status or bounds
void apply(model& m, setting const& s, bool& status_changed, bool& bounds_changed) {
  auto const set = [](auto& x, auto const& v, bool& ch) { if (!(x == v)) { x = v; ch = true; } };
  switch (s.kind) {
    case 's': set(m.status, s.text, status_changed); break;
    case 'p': set(m.show, s.show, status_changed); break;
    case 'r': set(m.k.low, 0.F, bounds_changed); set(m.k.high, 100.F, bounds_changed); set(m.k.mod, 1.F, bounds_changed); set(m.k.in_high, std::size_t{100}, bounds_changed); break;
    case 'b': set(m.k.low, s.a, bounds_changed); set(m.k.high, s.b, bounds_changed); break;
    case 'm': set(m.k.mod, s.a, bounds_changed); break;
    default: set(m.k.in_high, s.n, bounds_changed); break;
  }
}
// differs from the text in one place only
std::string similar(vf::ctx& c, std::string t) {
  if (t.empty() || c.r.chance(1, 4)) return t + c.r.pick({std::string{" "}, std::string{"1"}, std::string(1, '\0'), std::string(20, 'z')});
  auto const at = c.r.chance(1, 2) ? t.size() - 1 : c.r.below(t.size());
  if (c.r.chance(1, 4)) return t.substr(0, at);
  t[at] = c.r.chance(1, 2) && t[at] != ' ' ? static_cast<char>(t[at] ^ 0x20) : static_cast<char>(t[at] + 1);
  return t;
}
setting draw(vf::ctx& c, model const& m) {
  setting s;
  switch (c.r.below(9)) {
    case 0: case 1: s.kind = 's'; s.text = c.r.chance(1, 4) ? (c.r.chance(1, 2) ? m.status : similar(c, m.status)) : c.r.pick({std::string{}, std::string{"working"}, std::string{"a status text that does not fit into a string object"}, "n" + std::to_string(c.r.below(9))}); break;
    case 2: s.kind = 'p'; s.show = c.r.chance(1, 2); break;
    case 3: s.kind = 'r'; break;
    case 4: case 5:
      s.kind = 'b';
      switch (c.r.below(7)) {
        case 0: s.a = m.k.low; s.b = m.k.high; break;
        case 1: s.a = 0; s.b = 100; break;
        case 2: s.a = 20; s.b = std::nextafter(20.F, 0.F); break;  // invalid by one step
        case 3: s.a = s.b = static_cast<float>(c.r.below(100)); break;
        case 4: s.a = static_cast<float>(c.r.below(100)); s.b = static_cast<float>(c.r.below(100)); break;
        case 5: s.a = c.r.chance(1, 2) ? NAN : 1.F; s.b = std::isnan(s.a) ? 5.F : NAN; break;
        default: s.a = -static_cast<float>(c.r.below(50)); s.b = static_cast<float>(c.r.below(50)); break;
      }
      break;
    case 6: s.kind = 'm'; s.a = c.r.pick({1.F, 1.F, 2.F, 5.F, 0.5F, 0.F, -0.F, -1.F, NAN, 10.F}); break;
    default: s.kind = 'h'; s.n = c.r.pick<std::size_t>({0, 1, 10, 100, 100, 1000, 77}); break;
  }
  return s;
}

template <typename T>
upd one(T&& t, setting const& s) {
  switch (s.kind) {
    case 's': return t.status(s.text);
    case 'p': return t.show_progress(s.show);
    case 'r': return t.reset_bounds();
    case 'b': return t.out_bounds(s.a, s.b);
    case 'm': return t.out_mod(s.a);
    default: return t.in_high(s.n);
  }
}
void rest(upd u, std::vector<setting> const& v, std::size_t i) {
  if (i < v.size()) rest(one(u, v[i]), v, i + 1);
}

// what can be seen of the bounds: the display for a few inputs
bool probe(vf::ctx& c, utl::progress_tracker& t, model& m, int& calls, std::string const& hist) {
  for (auto const in : {m.k.in_high / 2, m.k.in_high, m.k.in_high / 3 + 1, std::size_t{0}}) {
    t.update(in);
    m.in = in;
    float const v = t.out_;
    if (!shows(m.k, in, v)) {
      c.violate("display does not follow the configured bounds", vf::cat("input ", in, " shows ", v, " bounds [", m.k.low, ",", m.k.high, "] step ", m.k.mod, " maximum ", m.k.in_high, " after ", hist));
      return false;
    }
  }
  calls = 0;
  return true;
}
}  // namespace

SCENARIO(chains, 60000, 2000000) {
  int calls = 0;
  model seen;
  float seen_out = 0;
  utl::progress_tracker* self = nullptr;
  utl::progress_tracker t{[&](utl::progress_tracker const& x) {
    ++calls;
    seen.status = x.status_;
    seen.show = x.show_progress_;
    seen_out = x.out_;
    // the chain is over: the tracker is free to be used again
    std::unique_lock<std::mutex> l{self->mutex_, std::try_to_lock};
    if (!l.owns_lock()) calls += 100;
  }};
  self = &t;
  model m;
  std::string hist;
  auto const n = 1 + c.r.below(5);
  for (std::size_t step = 0; step < n; ++step) {
    // move the input off zero first, so that a reset can be seen
    if (c.r.chance(2, 3)) {
      m.in = 1 + c.r.below(m.k.in_high + 1);
      t.update(m.in);
      hist += " update(" + std::to_string(m.in) + ")";
      CHECK(shows(m.k, m.in, t.out_), "display", "shows ", t.out_.load(), " after", hist);
    }
    float const out_before = t.out_;
    std::vector<setting> chain;
    model const before = m;
    bool st = false, bo = false, rejected = false;
    hist += " t";
    for (auto k = 1 + c.r.below(5); k; --k) {
      auto const s = draw(c, m);
      chain.push_back(s);
      hist += text(s);
      if (!s.valid()) { rejected = true; break; }
      apply(m, s, st, bo);
    }
    calls = 0;
    bool threw = false;
    try {
      rest(one(t, chain[0]), chain, 1);
    } catch (std::exception const&) {
      threw = true;
    }
    CHECK_EQ(rejected, threw, "rejection", "after", hist);
    CHECK_EQ(m.status, t.status_, "status", "after", hist);
    CHECK_EQ(m.show, t.show_progress_, "show_progress", "after", hist);
    // changed and changed back within one chain: either reading is fine
    bool const back = (bo && before.k.low == m.k.low && before.k.high == m.k.high && before.k.mod == m.k.mod && before.k.in_high == m.k.in_high) ||
                      (st && before.status == m.status && before.show == m.show);
    if (!back) {
      CHECK_EQ(st || bo ? 1 : 0, calls, "callbacks of one chain (100: tracker still locked)", "after", hist);
      if (calls) {
        CHECK(seen.status == m.status && seen.show == m.show, "callback ran before the chain was complete", "after", hist);
        CHECK_EQ(t.out_.load(), seen_out, "callback ran before the value was reset", "after", hist);
        c.count("callbacks");
      } else c.count("nothing-changed");
      if (bo) {
        CHECK_EQ(m.k.low, t.out_.load(), "displayed value not back at the lower bound", "after", hist);
        // the input restarted: one increment from zero
        t.increment();
        m.in = 1;
        CHECK(shows(m.k, 1, t.out_), "input not restarted at zero", "shows ", t.out_.load(), " after", hist);
        c.count("resets");
      } else {
        CHECK_EQ(out_before, t.out_.load(), "displayed value changed without a change of bounds", "after", hist);
      }
    } else {
      CHECK(calls <= 1, "callbacks of one chain", "after", hist);
    }
    if (c.r.chance(1, 2) || rejected || back) { if (!probe(c, t, m, calls, hist)) return; hist += " probe"; }
    if (rejected) c.count("rejected");
    c.count("chains");
    c.count("settings", chain.size());
  }
  c.distinct(vf::hstr(hist));
  if (c.want_sample() && n > 2) c.sample(hist);
}

// an update that is kept around applies when it goes away
SCENARIO(held_update, 2000, 40000) {
  int calls = 0;
  utl::progress_tracker t{[&](utl::progress_tracker const&) { ++calls; }};
  t.update(40);
  calls = 0;
  {
    auto u = t.status("held");
    CHECK_EQ(0, calls, "callback before the chain ended");
    auto u2 = u.out_bounds(10, 20);
    CHECK_EQ(0, calls, "callback before the chain ended");
    auto u3 = std::move(u2);
    CHECK_EQ(0, calls, "callback before the chain ended");
  }
  CHECK_EQ(1, calls, "callbacks of a held update");
  CHECK_EQ(std::string{"held"}, t.status_, "status");
  CHECK_EQ(10.F, t.out_.load(), "value");
  c.count("held");
}

// chains from several threads do not mix: whoever looks (under the tracker's
// lock) sees the result of one whole chain
SCENARIO(concurrent_chains, 6000, 250000) {
  auto cfg = conc::draw(c);
  auto const threads = 2 + c.r.below(3), per = 1 + c.r.below(3);
  std::size_t calls = 0, looks = 0;
  std::string bad;
  auto const seed = c.r.next();
  conc::session(c, cfg, [&] {
    std::mutex m;
    utl::progress_tracker t{[&](utl::progress_tracker const&) { std::lock_guard<std::mutex> l{m}; ++calls; }};
    auto const look = [&] {
      std::lock_guard<std::mutex> l{t.mutex_};
      std::lock_guard<std::mutex> l2{m};
      ++looks;
      if (t.status_.empty()) return;
      auto const id = std::stoi(t.status_);
      float const low = static_cast<float>(id);
      if (t.show_progress_ != (id % 2 == 0) || t.out_ != low) bad = vf::cat("status ", t.status_, " show ", t.show_progress_, " value ", t.out_.load());
    };
    std::vector<std::thread> ts;
    for (std::size_t w = 0; w < threads; ++w) {
      ts.emplace_back([&, w] {
        vf::rng r{vf::hcomb(seed, w)};
        for (std::size_t i = 0; i < per; ++i) {
          int const id = static_cast<int>(1 + w * per + i);
          auto const f = static_cast<float>(id);
          if (r.chance(1, 2)) t.status(std::to_string(id)).show_progress(id % 2 == 0).out_bounds(f, f + 50);
          else t.out_bounds(f, f + 50).in_high(static_cast<std::size_t>(100 + id)).show_progress(id % 2 == 0).status(std::to_string(id));
          look();
        }
      });
    }
    for (auto& x : ts) x.join();
    look();
  });
  CHECK(bad.empty(), "settings of two chains mixed", bad);
  CHECK_EQ(threads * per, calls, "callbacks", "threads ", threads, " chains each ", per);
  c.count("concurrent-chains", threads * per);
  c.count("looks", looks);
}
