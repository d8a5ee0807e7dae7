// C04: thread_pool executes each batch exactly once, as a barrier.
// C05: worker lifecycle (second group of checks; see VF_LIFECYCLE).
#include "conc.h"

#include <vector>

#include "utl/thread_pool.h"

namespace {
enum { INIT = 1, INITED, FINI, FINISHED, START, END, EXEC, EXECUTED, MADE, DESTROY, DESTROYED };

struct plan {
  std::vector<std::size_t> batches;
  conc::jitter j;
  std::vector<char> idle;  // let the workers settle before the batch
  bool idle_end, callbacks;
};
plan draw(vf::ctx& c) {
  plan p;
  auto const k = c.r.below(4) == 0 ? c.r.below(2) : 1 + c.r.below(7);
  for (std::size_t i = 0; i < k; ++i) {
    switch (c.r.below(6)) {
      case 0: p.batches.push_back(0); break;
      case 1: p.batches.push_back(1); break;
      case 2: case 3: p.batches.push_back(1 + c.r.below(6)); break;
      case 4: p.batches.push_back(1 + c.r.below(c.r.chance(1, 8) ? 300 : 25)); break;
      default: p.batches.push_back(p.batches.empty() ? 3 : p.batches.back()); break;
    }
    p.idle.push_back(c.r.chance(1, 3));
  }
  p.j.seed = c.r.chance(1, 4) ? 0 : c.r.next();
  p.idle_end = c.r.chance(1, 2);
  p.callbacks = c.r.chance(3, 4);
  return p;
}
void settle() { for (int i = 0; i < 30; ++i) vfs::pause(); }

vfs::stats run(vf::ctx& c, plan const& p, vfs::config const& cfg) {
  return conc::session(c, cfg, [&] {
    auto const batches = [&](utl::thread_pool& pool) {
      vfs::log(MADE);
      std::int64_t b = 0;
      for (auto const n : p.batches) {
        if (p.idle[static_cast<std::size_t>(b)]) settle();
        vfs::log(EXEC, b, static_cast<std::int64_t>(n));
        {
          // gone when the batch is over: a late call would touch freed memory
          auto const cells = std::make_unique<std::vector<int>>(n, 0);
          pool.execute(n, [&, cell = cells.get(), b](std::size_t const i) {
            vfs::log(START, b, static_cast<std::int64_t>(i));
            if (i < cell->size()) ++(*cell)[i];
            p.j(i + static_cast<std::size_t>(b) * 977U);
            vfs::log(END, b, static_cast<std::int64_t>(i));
          });
          vfs::log(EXECUTED, b);
          for (auto const x : *cells) if (x != 1) { c.violate("effect of a job missing when execute returned", vf::cat("batch ", b, " of ", p.batches, " hc=", cfg.hc, " cells ", *cells)); break; }
        }
        ++b;
      }
      if (p.idle_end) settle();
      vfs::log(DESTROY);
    };
    if (p.callbacks) {
      utl::thread_pool pool{[&] { vfs::log(INIT); p.j(91); vfs::log(INITED); }, [&] { vfs::log(FINI); p.j(92); vfs::log(FINISHED); }};
      batches(pool);
    } else {
      utl::thread_pool pool;
      batches(pool);
    }
    vfs::log(DESTROYED);
  });
}

std::string info(plan const& p, vfs::config const& cfg, std::vector<vfs::event> const& l) {
  std::vector<std::size_t> v = p.batches;
  return vf::cat("batches ", v, " hc=", cfg.hc, " strategy=", cfg.strategy, " | ") + conc::show(l, 90);
}

void judge_batches(vf::ctx& c, plan const& p, vfs::config const& cfg, std::vector<vfs::event> const& l) {
  std::int64_t cur = -1;
  bool open = false;
  std::vector<int> st;  // of the current batch
  std::set<int> who;
  for (auto const& e : l) {
    switch (e.what) {
      case EXEC: cur = e.a; open = true; st.assign(static_cast<std::size_t>(e.b), 0); who.clear(); break;
      case START: {
        CHECK(open, "job ran outside execute", "batch ", e.a, " index ", e.b, " ", info(p, cfg, l));
        CHECK(e.a == cur, "function of another batch called", "batch ", e.a, " during ", cur, " ", info(p, cfg, l));
        CHECK(e.b >= 0 && static_cast<std::size_t>(e.b) < st.size(), "job outside the range", "index ", e.b, " ", info(p, cfg, l));
        auto& s = st[static_cast<std::size_t>(e.b)];
        CHECK(s == 0, "job ran twice", "batch ", e.a, " index ", e.b, " ", info(p, cfg, l));
        s = 1;
        who.insert(e.tid);
        break;
      }
      case END:
        CHECK(open && e.a == cur, "execute returned before a job finished", "batch ", e.a, " index ", e.b, " ", info(p, cfg, l));
        st[static_cast<std::size_t>(e.b)] = 2;
        break;
      case EXECUTED:
        for (std::size_t i = 0; i < st.size(); ++i) {
          CHECK(st[i] != 0, "job missing", "batch ", cur, " index ", i, " ", info(p, cfg, l));
          CHECK(st[i] == 2, "execute returned before a job finished", "batch ", cur, " index ", i, " ", info(p, cfg, l));
        }
        open = false;
        c.count("batches");
        c.count("jobs", st.size());
        if (st.empty()) c.count("empty-batches");
        if (who.size() > 1) c.count("batches-on-several-threads");
        break;
      default: break;
    }
  }
  if (c.want_sample(2) && p.batches.size() > 2) c.sample(info(p, cfg, l));
}

void judge_lifecycle(vf::ctx& c, plan const& p, vfs::config const& cfg, vfs::stats const& st, std::vector<vfs::event> const& l) {
  struct w { int init = 0, fini = 0; std::size_t jobs = 0; };
  std::map<int, w> ws;
  bool destroyed = false;
  bool early = false, before_destroy = true;
  for (auto const& e : l) {
    if (e.what == DESTROYED) { destroyed = true; continue; }
    if (e.what == DESTROY) {
      before_destroy = false;
      if (p.callbacks && ws.size() < cfg.hc) early = true;
      continue;
    }
    CHECK(!destroyed, "activity after the pool was destroyed", info(p, cfg, l));
    if (e.what == MADE || e.what == EXEC || e.what == EXECUTED) continue;
    CHECK(e.tid != 0, "callback or job on the thread that owns the pool", "event ", e.what, " ", info(p, cfg, l));
    auto& x = ws[e.tid];
    switch (e.what) {
      case INIT: CHECK(x.init == 0, "initializer ran twice on a worker", info(p, cfg, l)); CHECK(x.jobs == 0 && x.fini == 0, "initializer after a job or the finalizer", info(p, cfg, l)); x.init = 1; break;
      case INITED: x.init = 2; break;
      case START:
        if (p.callbacks) CHECK(x.init == 2, "job on a worker before its initializer finished", "thread ", e.tid, " ", info(p, cfg, l));
        CHECK(x.fini == 0, "job on a worker after its finalizer", "thread ", e.tid, " ", info(p, cfg, l));
        ++x.jobs;
        break;
      case FINI:
        CHECK(x.fini == 0, "finalizer ran twice on a worker", "thread ", e.tid, " ", info(p, cfg, l));
        CHECK(x.init == 2, "finalizer without a finished initializer", "thread ", e.tid, " ", info(p, cfg, l));
        CHECK(!before_destroy, "worker finished while the pool was in use", "thread ", e.tid, " ", info(p, cfg, l));
        x.fini = 1;
        break;
      case FINISHED: x.fini = 2; break;
      default: break;
    }
  }
  auto const want = std::max(1U, cfg.hc);
  if (p.callbacks) {
    CHECK_EQ(static_cast<std::size_t>(want), ws.size(), "workers that ran callbacks", info(p, cfg, l));
    for (auto const& [t, x] : ws) {
      CHECK(x.init == 2, "initializer missing or unfinished", "thread ", t, " ", info(p, cfg, l));
      CHECK(x.fini == 2, "finalizer missing or unfinished", "thread ", t, " ", info(p, cfg, l));
      c.count("workers");
      if (x.jobs == 0) c.count("workers-without-job");
    }
  } else {
    CHECK(ws.size() <= want, "more workers than hardware threads", info(p, cfg, l));
  }
  if (vfs::controlled()) {
    CHECK_EQ(want, st.created, "threads created", info(p, cfg, l));
    CHECK(st.live == 0, "worker left after destruction", "left ", st.live, " ", info(p, cfg, l));
  }
  if (p.batches.empty()) c.count("unused-pools");
  if (early) c.count("destroyed-before-all-workers-started");
  if (!p.idle_end && !p.batches.empty()) c.count("destroyed-right-after-a-batch");
  if (p.idle_end) c.count("destroyed-idle");
  if (c.want_sample(2) && early) c.sample(info(p, cfg, l));
}
// Several pools alive at the same time - used by threads of their own or by the
// jobs of an outer pool, or made by one thread, used by others in turn and
// destroyed by yet another. Every pool is judged alone: (a) its batches, (b) its
// workers.
void several(vf::ctx& c, bool lifecycle) {
  auto const k = 1 + c.r.below(3);
  auto const how = c.r.below(3);  // threads, jobs of an outer pool, handed over
  auto cfg = conc::draw(c);
  cfg.hc = static_cast<unsigned>(c.r.below(4));
  std::vector<plan> ps;
  for (std::size_t i = 0; i < k; ++i) { ps.push_back(draw(c)); for (auto& n : ps.back().batches) n = std::min<std::size_t>(n, 12); }
  auto const st = conc::session(c, cfg, [&] {
    auto const make = [&](std::size_t const q) {
      auto const id = static_cast<std::int64_t>(q);
      auto const& p = ps[q];
      return std::make_unique<utl::thread_pool>([&p, id] { vfs::log(INIT, id); p.j(91); vfs::log(INITED, id); }, [&p, id] { vfs::log(FINI, id); p.j(92); vfs::log(FINISHED, id); });
    };
    auto const batch = [&](utl::thread_pool& pool, std::size_t const q, std::size_t const b) {
      auto const id = static_cast<std::int64_t>(q);
      auto const n = ps[q].batches[b];
      if (ps[q].idle[b]) settle();
      auto const cells = std::make_unique<std::vector<int>>(n, 0);
      pool.execute(n, [&, id, cell = cells.get()](std::size_t const i) {
        vfs::log(START, id, static_cast<std::int64_t>(i));
        ps[q].j(i + b * 977U);
        if (i < cell->size()) ++(*cell)[i];
        vfs::log(END, id, static_cast<std::int64_t>(i));
      });
      vfs::log(EXECUTED, id);
      if (!lifecycle) for (auto const x : *cells) if (x != 1) { c.violate("job count of one of several pools", vf::cat("pool ", q, " batch ", b, " of ", ps[q].batches, " hc=", cfg.hc, " cells ", *cells)); break; }
    };
    auto const whole = [&](std::size_t const q) {
      auto pool = make(q);
      for (std::size_t b = 0; b < ps[q].batches.size(); ++b) batch(*pool, q, b);
      vfs::log(DESTROY, static_cast<std::int64_t>(q));
      pool.reset();
      vfs::log(DESTROYED, static_cast<std::int64_t>(q));
    };
    if (how == 0) {
      std::vector<std::thread> ts;
      for (std::size_t q = 0; q < k; ++q) ts.emplace_back(whole, q);
      for (auto& t : ts) t.join();
    } else if (how == 1) {
      utl::thread_pool outer;
      outer.execute(k, whole);
    } else {
      for (std::size_t q = 0; q < k; ++q) {
        std::unique_ptr<utl::thread_pool> pool;
        std::thread{[&] { pool = make(q); }}.join();
        for (std::size_t b = 0; b < ps[q].batches.size(); ++b) std::thread{[&] { batch(*pool, q, b); }}.join();
        std::thread{[&] { vfs::log(DESTROY, static_cast<std::int64_t>(q)); pool.reset(); vfs::log(DESTROYED, static_cast<std::int64_t>(q)); }}.join();
      }
    }
  });
  auto const l = vfs::take_log();
  CHECK(st.live == 0, "worker left after destruction", conc::show(l));
  c.count(how == 2 ? "pools-handed-over" : "simultaneous-pools", k);
  if (!lifecycle) return;
  struct w { std::int64_t pool = -1; int init = 0, fini = 0; };
  std::map<int, w> ws;
  std::set<std::int64_t> going, gone;
  for (auto const& e : l) {
    if (e.what == EXECUTED) continue;
    if (e.what == DESTROY) { going.insert(e.a); continue; }
    if (e.what == DESTROYED) { gone.insert(e.a); continue; }
    CHECK(!gone.count(e.a), "activity after the pool was destroyed", conc::show(l));
    auto& x = ws[e.tid];
    CHECK(x.pool == -1 || x.pool == e.a, "worker of one pool did something for another", "thread ", e.tid, " ", conc::show(l));
    x.pool = e.a;
    switch (e.what) {
      case INIT: CHECK(x.init == 0, "initializer ran twice on a worker", conc::show(l)); x.init = 1; break;
      case INITED: x.init = 2; break;
      case START: CHECK(x.init == 2 && x.fini == 0, "job before the initializer or after the finalizer of its worker", "thread ", e.tid, " ", conc::show(l)); break;
      case FINI: CHECK(x.init == 2 && x.fini == 0 && going.count(e.a), "finalizer twice, too early or without initializer", "thread ", e.tid, " ", conc::show(l)); x.fini = 1; break;
      case FINISHED: x.fini = 2; break;
      default: break;
    }
  }
  for (std::size_t q = 0; q < k; ++q) {
    std::size_t n = 0;
    for (auto const& [t, x] : ws) if (x.pool == static_cast<std::int64_t>(q)) { ++n; CHECK(x.init == 2 && x.fini == 2, "initializer or finalizer missing", "thread ", t, " ", conc::show(l)); }
    CHECK_EQ(static_cast<std::size_t>(std::max(1U, cfg.hc)), n, "workers of one of several pools", conc::show(l));
  }
}
}  // namespace

#ifndef VF_LIFECYCLE
SCENARIO(several_pools, 2500, 100000) { several(c, false); }
SCENARIO(histories, 16000, 700000) {
  auto const p = draw(c);
  auto const cfg = conc::draw(c);
  run(c, p, cfg);
  judge_batches(c, p, cfg, vfs::take_log());
}
// one to three workers and tiny batches: many schedules of the same history
SCENARIO(small, 24000, 1000000) {
  plan p;
  auto const k = 1 + c.r.below(5);
  for (std::size_t i = 0; i < k; ++i) { p.batches.push_back(c.r.below(4)); p.idle.push_back(c.r.chance(1, 6)); }
  p.j.seed = c.r.chance(1, 2) ? 0 : c.r.next();
  p.idle_end = false;
  p.callbacks = false;
  auto cfg = conc::draw(c);
  cfg.hc = static_cast<unsigned>(c.r.below(5));
  run(c, p, cfg);
  judge_batches(c, p, cfg, vfs::take_log());
}
// long histories on one pool
SCENARIO(long_histories, 160, 6000) {
  plan p;
  auto const k = 60 + c.r.below(100);
  for (std::size_t i = 0; i < k; ++i) { p.batches.push_back(c.r.below(8)); p.idle.push_back(c.r.chance(1, 10)); }
  p.j.seed = c.r.next();
  p.idle_end = false;
  p.callbacks = false;
  auto cfg = conc::draw(c);
  run(c, p, cfg);
  judge_batches(c, p, cfg, vfs::take_log());
}
// more jobs, resp. batches, than any narrow counter can hold
SCENARIO(large, VF_LONG(16, 16), 400) {
  auto const many_batches = c.idx % 2 == 0;
  std::size_t const k = many_batches ? (vfs::controlled() ? c.r.pick({300U, 300U, 1000U, 4000U}) : c.r.pick({300U, 1000U, 5000U, 40000U, 66000U})) : 3;
  auto cfg = conc::draw(c);
  cfg.hc = 1 + static_cast<unsigned>(c.r.below(many_batches ? 2 : 3));
  cfg.max_steps = 60000000;
  cfg.spurious = 0;
  cfg.mem_points = 0;
  std::string wrong;
  std::size_t const n = many_batches ? 0 : c.r.pick({256U, 257U, 32769U, 65536U, 65537U, 70001U});
  conc::session(c, cfg, [&] {
    utl::thread_pool pool;
    for (std::size_t b = 0; b < k && wrong.empty(); ++b) {
      auto const m = many_batches ? 1 + b % 2 : n + b / 2;  // twice the same size, then another
      conc::tallies t(m);
      std::size_t outside = 0;
      pool.execute(m, [&](std::size_t const i) { if (i < m) t.add(i); else ++outside; });
      if (outside) wrong = vf::cat("job outside the range in batch ", b, " of ", m);
      for (std::size_t i = 0; i < m; ++i) if (t.at(i) != 1) { wrong = vf::cat("batch ", b, " of ", m, " jobs: index ", i, " ran ", t.at(i), " times"); break; }
    }
  });
  CHECK(wrong.empty(), "job not run exactly once", wrong);
  c.count(many_batches ? "many-batch-pools" : "large-batch-pools");
}
// several pools at once, each used by its own thread
SCENARIO(two_pools, 600, 20000) {
  auto cfg = conc::draw(c);
  cfg.hc = 1 + static_cast<unsigned>(c.r.below(3));
  std::size_t const n = c.r.below(8), m = c.r.below(8);
  std::vector<int> a(n, 0), b(m, 0);
  bool wrong = false;
  conc::session(c, cfg, [&] {
    utl::thread_pool p1;
    std::thread t{[&] {
      utl::thread_pool p2;
      for (int k = 0; k < 2; ++k) {
        p2.execute(m, [&](std::size_t i) { vfs::point(); ++b[i]; });
        for (auto x : b) if (x != k + 1) wrong = true;
      }
    }};
    for (int k = 0; k < 2; ++k) {
      p1.execute(n, [&](std::size_t i) { vfs::point(); ++a[i]; });
      for (auto x : a) if (x != k + 1) { c.violate("job count of one of two pools", vf::cat(a)); break; }
    }
    t.join();
  });
  CHECK(!wrong, "job count of one of two pools");
  c.count("pool-pairs");
}
#else
SCENARIO(several_pools, 2500, 100000) { several(c, true); }
SCENARIO(lifecycle, 16000, 700000) {
  auto const p = draw(c);
  auto const cfg = conc::draw(c);
  auto const st = run(c, p, cfg);
  judge_lifecycle(c, p, cfg, st, vfs::take_log());
}
SCENARIO(unused, 12000, 400000) {
  plan p;
  p.j.seed = c.r.chance(1, 2) ? 0 : c.r.next();
  p.idle_end = c.r.chance(1, 3);
  p.callbacks = true;
  if (c.r.chance(1, 2)) { p.batches.push_back(c.r.below(3)); p.idle.push_back(0); }
  auto const cfg = conc::draw(c);
  auto const st = run(c, p, cfg);
  judge_lifecycle(c, p, cfg, st, vfs::take_log());
}
// only one of the two callbacks given
SCENARIO(only_initializer, 1500, 40000) {
  auto cfg = conc::draw(c);
  std::vector<std::size_t> batches(c.r.below(4));
  for (auto& x : batches) x = c.r.below(6);
  conc::session(c, cfg, [&] {
    utl::thread_pool pool{[&] { vfs::log(INIT); vfs::pause(); vfs::log(INITED); }};
    for (auto const n : batches) pool.execute(n, [&](std::size_t) { vfs::log(START); });
  });
  std::map<int, int> s;
  for (auto const& e : vfs::take_log()) {
    auto& x = s[e.tid];
    if (e.what == INIT) { CHECK_EQ(0, x, "initializer not first"); x = 1; }
    else if (e.what == INITED) x = 2;
    else CHECK_EQ(2, x, "job before the initializer finished");
  }
  CHECK_EQ(static_cast<std::size_t>(std::max(1U, cfg.hc)), s.size(), "workers");
  for (auto const& [t, x] : s) CHECK_EQ(2, x, "initializer unfinished", "thread ", t);
  c.count("initializer-only");
}
#endif
