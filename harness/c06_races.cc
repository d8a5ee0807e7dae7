// C06: no data race between the operations the contracts allow at the same
// time. The deciding monitor is the race detector (vector clocks over every
// access and synchronisation operation in the controlled build, ThreadSanitizer
// in the other); the code below only produces executions. Everything the jobs
// share is plain memory.
#include "conc.h"

#include <list>
#include <thread>
#include <vector>

#include "utl/parallel_for.h"
#include "utl/progress_tracker.h"
#include "utl/thread_pool.h"

namespace {
struct cells {
  std::vector<std::uint64_t> in, out;
  std::list<std::string> text;
  std::string label;
};
cells make(vf::ctx& c, std::size_t n) {
  cells x;
  for (std::size_t i = 0; i < n; ++i) { x.in.push_back(c.r.next()); x.out.push_back(0); x.text.push_back(std::to_string(i)); }
  x.label = "shared text that lives on the heap";
  return x;
}
struct boom { std::string s; };
struct local { std::vector<std::uint64_t> v; std::uint64_t n; };

vfs::config cfg_of(vf::ctx& c) {
  auto f = conc::draw(c, true);
  f.spurious = 0;
  return f;
}
void silence() {
  static conc::null_buf b;
  std::cout.rdbuf(&b);
  conc::quiet_clog();
}
}  // namespace

// Several threads use loops, pools, trackers and the registry at the same time,
// each for itself; also as the first use in the process.
namespace {
void callers(vf::ctx& c) {
  silence();
  auto const threads = 2 + c.r.below(2);
  auto const seed = c.r.next();
  auto const one = c.r.below(8);
  auto const mix = c.r.chance(1, 4);
  auto cfg = cfg_of(c);
  cfg.hc = c.r.pick({0U, 1U, 2U, 3U});
  std::vector<std::uint64_t> sums(threads, 0);
  conc::session(c, cfg, [&] {
    std::vector<std::thread> ts;
    for (std::size_t t = 0; t < threads; ++t) {
      ts.emplace_back([&, t] {
        vf::rng r{vf::hcomb(seed, t)};
        auto const n = r.below(8);
        auto const kind = mix ? r.below(8) : one;
        std::vector<std::uint64_t> v(n, t), w(n, 0);
        auto const s = r.chance(1, 2) ? utl::parallel_error_strategy::QUIT_EXEC : utl::parallel_error_strategy::CONTINUE_EXEC;
        auto const fail = r.chance(1, 3) ? 1 + r.below(8) : 100;
        auto const job = [&](std::size_t const i) {
          w[i] += v[i] + i;
          if (i == fail) throw boom{std::to_string(i)};
        };
        try {
          utl::errors_t e;
          switch (kind) {
            case 0: e = utl::parallel_for_run(n, job, utl::noop_progress_update{}, s); break;
            case 1: e = utl::parallel_for_run_threadlocal<local>(n, [&](local& l, std::size_t i) { l.v.push_back(i); job(i); }, utl::noop_progress_update{}, s); break;
            case 2: e = utl::parallel_for(v, [&](std::uint64_t& x) { job(static_cast<std::size_t>(&x - v.data())); }, utl::noop_progress_update{}, s); break;
            case 3: e = utl::parallel_for(std::string{"label of thread "} + std::to_string(t), v, 2, [&](std::uint64_t const& x) { job(static_cast<std::size_t>(&x - v.data())); }, utl::noop_progress_update{}, s); break;
            case 4: {
              utl::thread_pool p{[] { vfs::point(); }};
              p.execute(n, [&](std::size_t const i) { w[i] += i; });
              p.execute(n, [&](std::size_t const i) { w[i] += i; });
              break;
            }
            case 5: {
              utl::progress_tracker own{[](utl::progress_tracker const& x) { (void)x.out_.load(); }};
              own.in_high(10).status("own");
              own.update(3 + t);
              own.increment(2);
              own.status("done");
              sums[t] += static_cast<std::uint64_t>(own.out_.load());
              break;
            }
            case 6: {
              auto const p = utl::get_active_progress_tracker_or_activate("tracker " + std::to_string(r.below(3)));
              p->status("s" + std::to_string(t));  // (bounds are not set here: the others are updating)
              p->increment(3);
              utl::get_global_progress_trackers().print();
              break;
            }
            default: {
              auto const p = utl::get_global_progress_trackers().get_tracker("a name that lives on the heap " + std::to_string(r.below(3)));
              p->update(50);
              e = utl::parallel_for_run(n, job, p->update_fn(), s);
              break;
            }
          }
          for (auto& x : e) sums[t] += x.first;
        } catch (boom const& b) {
          sums[t] += b.s.size();
        }
        for (auto const x : w) sums[t] += x;
      });
    }
    for (auto& t : ts) t.join();
  });
  c.count("callers", threads);
}
}  // namespace
SCENARIO(first_use, 800, 12000) { vf::in_fresh_process(c, [&] { callers(c); }); }
SCENARIO(several_callers, 1500, 60000) { callers(c); }

SCENARIO(loops, 3000, 120000) {
  silence();
  auto const n = c.r.below(3) == 0 ? c.r.below(5) : c.r.below(30);
  auto x = make(c, n);
  auto const kind = c.r.below(6);
  auto const quit = c.r.chance(1, 2);
  auto const fail = c.r.chance(1, 3) ? 2 + c.r.below(6) : 0;
  auto const s = quit ? utl::parallel_error_strategy::QUIT_EXEC : utl::parallel_error_strategy::CONTINUE_EXEC;
  conc::jitter const j{c.r.next()};
  std::vector<char> done(n, 0);
  std::uint64_t sum = 0;
  conc::session(c, cfg_of(c), [&] {
    x.label += " of this run";  // written before, read by every job
    for (auto& v : x.in) v ^= 1;
    auto job = [&](std::size_t const i) {
      j(i);
      x.out[i] = x.in[i] + x.label.size();
      if (fail && i % fail == 1) throw boom{x.label + std::to_string(i)};
    };
    auto cb = [&](std::size_t const i) { done[i] = static_cast<char>(1 + (x.out[i] & 1)); };
    utl::errors_t errors;
    try {
      switch (kind) {
        case 0: errors = utl::parallel_for_run(n, job, cb, s); break;
        case 1: errors = utl::parallel_for_run_threadlocal<local>(n, [&](local& l, std::size_t i) { l.v.push_back(i); l.n += l.v.size(); job(i); }, cb, s); break;
        case 2: errors = utl::parallel_for(x.in, [&](std::uint64_t& v) { auto const i = static_cast<std::size_t>(&v - x.in.data()); job(i); v += 3; }, cb, s); break;
        case 3: {
          auto const& in = x.in;
          errors = utl::parallel_for(in, [&](std::uint64_t const& v) { job(static_cast<std::size_t>(&v - in.data())); }, cb, s);
          break;
        }
        case 4: errors = utl::parallel_for(x.text, [&](std::string& t) { t += x.label; j(t.size()); }, utl::noop_progress_update{}, s); break;
        default: {
          auto const& in = x.in;
          errors = utl::parallel_for(std::string{"label"}, in, 3, [&](std::uint64_t const& v) { job(static_cast<std::size_t>(&v - in.data())); }, cb, s);
          break;
        }
      }
    } catch (boom const& b) {
      sum += b.s.size();
    }
    for (auto& [i, e] : errors) {
      try { std::rethrow_exception(e); } catch (boom const& b) { sum += b.s.size(); }
    }
    // everything the jobs wrote is the caller's again
    for (auto& v : x.out) { sum += v; v = 0; }
    for (auto& v : x.in) sum += v++;
    for (auto& t : x.text) { sum += t.size(); t.clear(); }
    for (auto& d : done) { sum += static_cast<unsigned char>(d); d = 0; }
    x.label.clear();
  });
  c.count("loops");
  c.count("loop-jobs", n);
}

SCENARIO(pools, 3000, 120000) {
  std::size_t const n = 1 + c.r.below(10), k = 1 + c.r.below(5);
  auto x = make(c, n);
  conc::jitter const j{c.r.next()};
  auto const settle = c.r.chance(1, 3);
  auto cfg = cfg_of(c);
  cfg.spurious = c.r.chance(1, 4) ? 15 : 0;
  std::uint64_t sum = 0;
  std::vector<std::size_t> sizes;
  for (std::size_t b = 0; b < k; ++b) sizes.push_back(c.r.below(n + 1));
  conc::session(c, cfg, [&] {
    std::vector<int> ready;  // written before construction, read by initializers
    ready.assign(4, 7);
    std::mutex m;
    std::size_t inits = 0;
    {
      utl::thread_pool pool{[&] { std::lock_guard<std::mutex> l{m}; inits += static_cast<std::size_t>(ready[1]); }, [&] { std::lock_guard<std::mutex> l{m}; inits += x.label.size(); }};
      for (auto const nb : sizes) {
        if (settle) for (int i = 0; i < 10; ++i) vfs::pause();
        x.label += "+";
        for (auto& v : x.in) v += x.label.size();
        auto const captured = x.label;
        pool.execute(nb, [&, captured](std::size_t const i) {
          j(i);
          x.out[i] += x.in[(i + 1) % n] + x.label.size() + captured.size();  // reads across, writes its own
        });
        for (auto& v : x.out) sum += v++;
        // and the other way round: what one batch's jobs wrote, another's read
        pool.execute(nb, [&](std::size_t const i) { x.in[i] = x.out[(i + 1) % n]; });
      }
      // written after the last batch, read by finalizers (ordered by the
      // destructor)
      x.label += " last";
    }
    sum += inits;
    x.label.clear();
  });
  c.count("pool-batches", 2 * k);
}

namespace {
void tracker_ops(vf::ctx& c, bool registry) {
  silence();
  auto const threads = 2 + c.r.below(3);
  auto const ops = 1 + c.r.below(8);
  auto const seed = c.r.next();
  auto cfg = cfg_of(c);
  conc::session(c, cfg, [&] {
    utl::global_progress_bars bars{c.idx % 4 == 3};
    auto& g = utl::get_global_progress_trackers();
    std::vector<float> seen(threads, 0.F);
    auto own = std::make_shared<utl::progress_tracker>([](utl::progress_tracker const& t) { (void)t.out_.load(); });
    auto shared = registry ? g.get_tracker("shared") : own;
    shared->in_high(50).status("start");
    std::vector<std::thread> ts;
    for (std::size_t t = 0; t < threads; ++t) {
      ts.emplace_back([&, t] {
        vf::rng r{vf::hcomb(seed, t)};
        auto const inc = shared->increment_fn();
        auto const upd = shared->update_fn();
        for (std::size_t i = 0; i < ops; ++i) {
          switch (r.below(registry ? 16 : 8)) {
            case 0: shared->update(r.below(60)); break;
            case 1: shared->increment(r.below(5)); break;
            case 2: shared->update_monotonic(r.below(60)); break;
            case 3: shared->status("working on " + std::to_string(r.below(100))); break;
            case 4: shared->status("s" + std::to_string(r.below(3))).show_progress(r.chance(1, 2)); break;
            case 5: inc(); break;
            case 6: upd(r.below(60)); break;
            case 7: seen[t] += shared->out_.load(); break;
            case 8: g.get_tracker("t" + std::to_string(r.below(4)))->update(r.below(100)); break;
            case 9: utl::activate_progress_tracker("t" + std::to_string(r.below(4)))->increment(7); break;
            case 10: utl::activate_progress_tracker(shared); break;
            case 11: try { utl::get_active_progress_tracker()->increment(3); } catch (std::exception const&) { seen[t] += 1; } break;
            case 12: utl::get_active_progress_tracker_or_activate("t" + std::to_string(r.below(4)))->status("x" + std::to_string(i)); break;
            case 13: g.get_tracker("name that does not fit into the string object " + std::to_string(r.below(3)))->status("long status text, also on the heap"); break;
            default: g.print(); break;
          }
        }
      });
    }
    for (auto& t : ts) t.join();
    for (auto const f : seen) (void)f;
  });
  c.count(registry ? "registry-ops" : "tracker-ops", threads * ops);
}
}  // namespace

SCENARIO(tracker, 3000, 120000) { tracker_ops(c, false); }
SCENARIO(registry, 3000, 120000) { tracker_ops(c, true); }

// progress reported from the jobs of a parallel loop, the typical use
SCENARIO(loop_with_tracker, 800, 30000) {
  silence();
  auto const n = c.r.below(30);
  auto const kind = c.r.below(3);
  conc::session(c, cfg_of(c), [&] {
    utl::global_progress_bars bars{false};
    auto t = utl::activate_progress_tracker("loop");
    t->status("running").out_bounds(10, 90).in_high(n);
    switch (kind) {
      case 0: utl::parallel_for_run(n, [](std::size_t) { vfs::point(); }, t->update_fn()); break;
      case 1: utl::parallel_for_run(n, [&](std::size_t) { t->increment(); }); break;
      default: {
        utl::thread_pool p;
        p.execute(n, [&](std::size_t i) { t->update(i); t->status(std::to_string(i)); });
      }
    }
  });
  c.count("loops-with-tracker");
}
