// C02: error strategies of the parallel loops.
#include "conc.h"

#include <deque>
#include <vector>

#include "utl/parallel_for.h"

namespace {
enum { START = 1, END, THROW, CBSTART, CBEND, CBTHROW, EXIT, RETURN };

struct heavy : std::runtime_error {  // payload on the heap
  heavy(std::int64_t i) : std::runtime_error{"job " + std::to_string(i) + std::string(64, '.')}, index{i}, text{std::to_string(i) + std::string(100, 'x')} {}
  std::int64_t index;
  std::string text;
};
struct plain { std::int64_t index; };  // not derived from std::exception

[[noreturn]] void raise(std::int64_t i) {
  switch (i % 4) {
    case 0: throw heavy{i};
    case 1: throw plain{i};
    case 2: throw i;
    default: throw std::to_string(i);
  }
}
// index carried by the exception; -1: not one of ours
std::int64_t payload(std::exception_ptr const& p) {
  if (!p) return -2;
  try {
    std::rethrow_exception(p);
  } catch (heavy const& h) {
    return h.index % 4 == 0 && h.text == std::to_string(h.index) + std::string(100, 'x') ? h.index : -3;
  } catch (plain const& x) {
    return x.index % 4 == 1 ? x.index : -3;
  } catch (std::int64_t const x) {
    return x % 4 == 2 ? x : -3;
  } catch (std::string const& s) {
    return s.empty() || s.size() > 12 ? -3 : std::stoll(s);
  } catch (...) {
    return -1;
  }
}

// logs when the worker's thread ends
struct at_exit {
  bool armed = false;
  ~at_exit() { if (armed) vfs::log(EXIT); }
};
thread_local at_exit on_exit_;

struct plan {
  std::int64_t id = 0;  // which of several loops
  std::size_t n;
  std::vector<char> in_job, in_cb;  // who throws where
  std::exception_ptr shared;  // all failures rethrow this one object
  conc::jitter j;
  bool failing(std::size_t i) const { return in_job[i] || in_cb[i]; }
  void fail(std::int64_t const i) const {
    if (shared) std::rethrow_exception(shared);
    raise(i);
  }
};
plan draw(vf::ctx& c) {
  plan p;
  p.n = c.r.below(4) == 0 ? c.r.below(5) : c.r.below(4) == 0 ? c.r.below(120) : c.r.below(30);
  p.in_job.resize(p.n);
  p.in_cb.resize(p.n);
  p.j.seed = c.r.next();
  switch (c.r.below(7)) {
    case 0: break;  // none
    case 1: std::fill(p.in_job.begin(), p.in_job.end(), 1); break;
    case 2: if (p.n) p.in_job[c.r.below(p.n)] = 1; break;
    case 3: if (p.n) p.in_cb[c.r.below(p.n)] = 1; break;
    case 4: if (p.n) p.in_job[p.n - 1] = 1; break;
    case 5: if (p.n) p.in_job[0] = 1; break;
    default: {
      if (c.r.chance(1, 3)) p.shared = std::make_exception_ptr(heavy{400000});
      auto const d = 2 + c.r.below(8);
      for (std::size_t i = 0; i < p.n; ++i) { p.in_job[i] = c.r.below(d) == 0; p.in_cb[i] = c.r.below(2 * d) == 0; }
    }
  }
  return p;
}
struct job {
  plan const* p;
  void operator()(std::size_t const i) const {
    auto const x = static_cast<std::int64_t>(i);
    vfs::log(START, x, p->id);
    on_exit_.armed = true;
    if (i >= p->n) return;
    p->j(i);
    if (p->in_job[i]) { vfs::log(THROW, x, p->id); p->fail(x); }
    vfs::log(END, x, p->id);
  }
};
struct callback {
  plan const* p;
  void operator()(std::size_t const i) const {
    auto const x = static_cast<std::int64_t>(i);
    vfs::log(CBSTART, x, p->id);
    if (i >= p->n) return;
    p->j(i + 5000);
    if (p->in_cb[i]) { vfs::log(CBTHROW, x, p->id); p->fail(x); }
    vfs::log(CBEND, x, p->id);
  }
};
struct state { int n; };

struct outcome {
  bool threw = false;
  std::exception_ptr e;
  utl::errors_t errors;
};

enum form { RUN, TL, CONT, CCONT, LABEL };
char const* const form_name[] = {"run", "threadlocal", "container", "const-container", "labelled"};

// strat: 0 default, 1 quit, 2 continue
outcome call(form f, plan const& p, int strat, std::vector<std::size_t>& cont) {
  using S = utl::parallel_error_strategy;
  auto const s = strat == 2 ? S::CONTINUE_EXEC : S::QUIT_EXEC;
  job const j{&p};
  callback cb{&p};
  outcome o;
  auto const tl = [&](state&, std::size_t i) { j(i); };
  auto const el = [&](std::size_t const& i) { j(i); };
  auto const& cc = cont;
  try {
    switch (f) {
      case RUN: o.errors = strat == 0 ? utl::parallel_for_run(p.n, j, cb) : utl::parallel_for_run(p.n, j, cb, s); break;
      case TL: o.errors = strat == 0 ? utl::parallel_for_run_threadlocal<state>(p.n, tl, cb) : utl::parallel_for_run_threadlocal<state>(p.n, tl, cb, s); break;
      case CONT: o.errors = strat == 0 ? utl::parallel_for(cont, el, cb) : utl::parallel_for(cont, el, cb, s); break;
      case CCONT: o.errors = strat == 0 ? utl::parallel_for(cc, el, cb) : utl::parallel_for(cc, el, cb, s); break;
      case LABEL: o.errors = strat == 0 ? utl::parallel_for(std::string{"l"}, cc, 7, el, cb) : utl::parallel_for(std::string{"l"}, cc, 7, el, cb, s); break;
    }
  } catch (...) {
    o.threw = true;
    o.e = std::current_exception();
  }
  vfs::log(RETURN, 0, p.id);
  return o;
}

void judge(vf::ctx& c, form f, plan const& p, bool quit, outcome const& o, vfs::stats const& st, std::vector<vfs::event> const& l) {
  auto const info = [&] {
    std::string s = std::string{form_name[f]} + (quit ? " quit" : " continue") + " n=" + std::to_string(p.n) + " failing:";
    for (std::size_t i = 0; i < p.n; ++i) if (p.failing(i)) s += " " + std::to_string(i) + (p.in_job[i] ? "j" : "c");
    return s + " | " + conc::show(l);
  };
  std::vector<int> started(p.n), done(p.n), cbs(p.n);
  std::vector<char> failed(p.n);
  std::set<int> throwers, exited;
  bool returned = false, stopped = false;  // stopped: a failing worker has ended
  std::map<int, int> starts_after;
  for (auto const& e : l) {
    if (e.what == RETURN) { returned = true; continue; }
    if (e.what == EXIT) {
      exited.insert(e.tid);
      if (throwers.count(e.tid)) stopped = true;
      continue;
    }
    CHECK(!returned, "activity after the call returned or threw", info());
    CHECK(e.a >= 0 && static_cast<std::size_t>(e.a) < p.n, "job outside the range", info());
    auto const i = static_cast<std::size_t>(e.a);
    switch (e.what) {
      case START:
        CHECK(++started[i] == 1, "job ran twice", "index ", i, " ", info());
        if (throwers.count(e.tid)) stopped = true;  // it goes on: its failure is recorded by now
        if (quit && stopped) {
          CHECK(++starts_after[e.tid] <= 1, "jobs still started after a failure", "index ", i, " ", info());
          c.count("jobs-started-late");
        }
        break;
      case END: ++done[i]; break;
      case THROW: ++done[i]; failed[i] = 1; throwers.insert(e.tid); break;
      case CBSTART:
        CHECK(++cbs[i] == 1, "callback twice", "index ", i, " ", info());
        CHECK(done[i] == 1 && !failed[i], "callback of an unfinished or failed job", "index ", i, " ", info());
        break;
      case CBEND: ++done[i]; break;
      case CBTHROW: ++done[i]; failed[i] = 1; throwers.insert(e.tid); break;
      default: break;
    }
  }
  CHECK(st.live == 0, "worker left", info());
  std::size_t ran = 0, nfailed = 0;
  for (std::size_t i = 0; i < p.n; ++i) {
    ran += static_cast<std::size_t>(started[i]);
    nfailed += static_cast<std::size_t>(failed[i]);
    if (started[i]) {
      CHECK(done[i] == (p.in_job[i] ? 1 : 2), "job or callback unfinished", "index ", i, " ", info());
      CHECK(cbs[i] == (p.in_job[i] ? 0 : 1), "callback missing", "index ", i, " ", info());
    }
  }
  if (quit) {
    for (std::size_t i = 0; i < ran; ++i) CHECK(started[i] == 1, "jobs that ran are not a prefix", "index ", i, " ran ", ran, " ", info());
    if (nfailed == 0) {
      CHECK(!o.threw, "exception without a failing job", info());
      CHECK(ran == p.n, "job missing", info());
      CHECK(o.errors.empty(), "error without a failing job", info());
    } else {
      CHECK(o.threw, "no exception for a failing job", info());
      auto const x = payload(o.e);
      CHECK(x >= 0, "exception is not the one a job threw", "payload code ", x, " ", info());
      if (p.shared) CHECK_EQ(std::int64_t{400000}, x, "exception of a job that did not fail", info());
      else CHECK(static_cast<std::size_t>(x) < p.n && failed[static_cast<std::size_t>(x)], "exception of a job that did not fail", "payload ", x, " ", info());
      c.count("quit-threw");
      if (ran < p.n) c.count("quit-stopped-early");
      if (nfailed > 1) c.count("quit-several-failures");
    }
  } else {
    CHECK(!o.threw, "exception with the continue strategy", info());
    CHECK(ran == p.n, "job missing", info());
    std::vector<int> listed(p.n);
    for (auto const& [i, e] : o.errors) {
      CHECK(i < p.n, "error index outside the range", "index ", i, " ", info());
      CHECK(failed[i], "error for a job that did not fail", "index ", i, " ", info());
      CHECK(++listed[i] == 1, "error listed twice", "index ", i, " ", info());
      CHECK_EQ(p.shared ? std::int64_t{400000} : static_cast<std::int64_t>(i), payload(e), "error carries another job's exception", info());
      c.count(p.shared ? "errors-sharing-one-exception" : "errors");
    }
    CHECK_EQ(nfailed, o.errors.size(), "error missing", info());
  }
  c.count(quit ? "quit-runs" : "continue-runs");
  if (throwers.size() > 1) c.count("failures-on-several-threads");
  if (c.want_sample(2) && nfailed > 1 && throwers.size() > 1) c.sample(info());
}

void one(vf::ctx& c, plan const& p, vfs::config const& cfg, form f, int strat) {
  conc::quiet_clog();
  std::vector<std::size_t> cont(p.n);
  for (std::size_t i = 0; i < p.n; ++i) cont[i] = i;
  outcome o;
  auto const st = conc::session(c, cfg, [&] { o = call(f, p, strat, cont); });
  judge(c, f, p, strat != 2, o, st, vfs::take_log());
}
}  // namespace

// Several loops at the same time, each with failures of its own: called by
// threads of the program, or by the jobs of an outer loop. Each is judged alone.
SCENARIO(several, 1500, 60000) {
  conc::quiet_clog();
  auto const k = 2 + c.r.below(2);
  auto const from_jobs = c.r.chance(1, 3);
  auto cfg = conc::draw(c);
  cfg.hc = static_cast<unsigned>(c.r.below(5));
  std::vector<plan> ps;
  std::vector<form> fs;
  std::vector<int> strats;
  std::vector<outcome> os(k);
  std::vector<std::vector<std::size_t>> conts;
  for (std::size_t i = 0; i < k; ++i) {
    ps.push_back(draw(c));
    ps.back().id = static_cast<std::int64_t>(i);
    ps.back().shared = nullptr;
    fs.push_back(static_cast<form>(c.r.below(5)));
    strats.push_back(static_cast<int>(c.r.below(3)));
    conts.emplace_back(ps[i].n);
    for (std::size_t x = 0; x < ps[i].n; ++x) conts[i][x] = x;
  }
  auto const st = conc::session(c, cfg, [&] {
    auto const go = [&](std::size_t const i) { os[i] = call(fs[i], ps[i], strats[i], conts[i]); };
    if (from_jobs) {
      utl::parallel_for_run(k, go);
    } else {
      std::vector<std::thread> ts;
      for (std::size_t i = 0; i < k; ++i) ts.emplace_back(go, i);
      for (auto& t : ts) t.join();
    }
  });
  auto const l = vfs::take_log();
  std::map<int, std::int64_t> loop_of;  // worker threads belong to one loop
  for (auto const& e : l) if (e.what == START) {
    auto const [it, first] = loop_of.emplace(e.tid, e.b);
    CHECK(it->second == e.b, "worker of one loop ran a job of another", conc::show(l));
  }
  for (std::size_t i = 0; i < k; ++i) {
    std::vector<vfs::event> mine;
    for (auto const& e : l) if (e.what == EXIT ? loop_of.count(e.tid) && loop_of[e.tid] == ps[i].id : e.b == ps[i].id) mine.push_back(e);
    judge(c, fs[i], ps[i], strats[i] != 2, os[i], st, mine);
  }
  c.count("simultaneous-loops", k);
}

SCENARIO(strategies, 24000, 800000) {
  auto const p = draw(c);
  auto const cfg = conc::draw(c);
  one(c, p, cfg, static_cast<form>(c.r.below(5)), static_cast<int>(c.r.below(3)));
}

// small runs: every subset of failing jobs, many schedules
SCENARIO(subsets, 24000, 800000) {
  plan p;
  p.n = 1 + c.r.below(5);
  p.j.seed = c.r.chance(1, 2) ? 7 : c.r.next();
  p.in_job.resize(p.n);
  p.in_cb.resize(p.n);
  auto m = c.idx;
  for (std::size_t i = 0; i < p.n; ++i, m /= 3) { p.in_job[i] = m % 3 == 1; p.in_cb[i] = m % 3 == 2; }
  auto cfg = conc::draw(c);
  cfg.hc = static_cast<unsigned>(c.r.below(5));
  one(c, p, cfg, c.r.chance(1, 2) ? RUN : TL, 1 + static_cast<int>(c.r.below(2)));
}

// the exceptions stay alive as long as the list, and go away with it
SCENARIO(lifetime, 1200, 20000) {
  static std::atomic<int> alive{0};
  struct counted {
    std::int64_t i;
    std::string text;
    explicit counted(std::int64_t x) : i{x}, text(80, static_cast<char>('a' + x % 26)) { ++alive; }
    counted(counted const& o) : i{o.i}, text{o.text} { ++alive; }
    ~counted() { --alive; }
  };
  auto const n = 1 + c.r.below(12);
  auto const quit = c.r.chance(1, 3);
  auto const cfg = conc::draw(c);
  conc::session(c, cfg, [&] {
    try {
      auto errors = utl::parallel_for_run(n, [&](std::size_t i) { throw counted{static_cast<std::int64_t>(i)}; }, utl::noop_progress_update{},
                                          quit ? utl::parallel_error_strategy::QUIT_EXEC : utl::parallel_error_strategy::CONTINUE_EXEC);
      if (quit || errors.size() != n || alive != static_cast<int>(n)) c.violate("exceptions not held by the list", vf::cat("n=", n, " listed ", errors.size(), " alive ", alive.load()));
      for (auto const& [i, e] : errors) {
        try { std::rethrow_exception(e); } catch (counted const& x) {
          if (x.i != static_cast<std::int64_t>(i) || x.text != std::string(80, static_cast<char>('a' + x.i % 26))) c.violate("exception changed", vf::cat("index ", i));
        }
      }
    } catch (counted const& x) {
      if (!quit) c.violate("exception with the continue strategy", vf::cat("index ", x.i));
      if (x.text != std::string(80, static_cast<char>('a' + x.i % 26))) c.violate("exception changed", vf::cat("index ", x.i));
    }
  });
  CHECK_EQ(0, alive.load(), "exception objects left", "n=", n);
  c.count("lifetimes");
}

// more failures than any narrow counter or index can hold
SCENARIO(large, VF_LONG(8, 16), 200) {
  conc::quiet_clog();
  auto const n = c.r.pick({std::size_t{257}, std::size_t{32770}, std::size_t{65537}, std::size_t{66000}});
  auto const every = 1 + c.r.below(3);
  auto cfg = conc::draw(c);
  cfg.hc = 1 + static_cast<unsigned>(c.r.below(3));
  cfg.max_steps = 60000000;
  cfg.spurious = 0;
  cfg.mem_points = 0;
  auto const late = c.r.chance(1, 3);  // quit: only the last job fails
  auto const tl = c.r.chance(1, 2);
  conc::tallies ran(n);
  bool threw = false;
  utl::errors_t errors;
  std::int64_t got = -1;
  auto const fails = [&](std::size_t i) { return late ? i == n - 1 : i % every == 0; };
  auto f = [&](std::size_t const i) { if (i < n) ran.add(i); if (fails(i)) throw static_cast<std::int64_t>(i); };
  auto const s = late ? utl::parallel_error_strategy::QUIT_EXEC : utl::parallel_error_strategy::CONTINUE_EXEC;
  auto const st = conc::session(c, cfg, [&] {
    try {
      if (tl) errors = utl::parallel_for_run_threadlocal<int>(n, [&](int&, std::size_t const i) { f(i); }, utl::noop_progress_update{}, s);
      else errors = utl::parallel_for_run(n, f, utl::noop_progress_update{}, s);
    } catch (std::int64_t const x) { threw = true; got = x; }
  });
  CHECK(st.live == 0, "worker left", "n=", n);
  for (std::size_t i = 0; i < n; ++i) CHECK(ran.at(i) == 1, "job not run exactly once", "index ", i, " n=", n, " runs ", ran.at(i));
  if (late) {
    CHECK(threw && got == static_cast<std::int64_t>(n - 1), "exception of the only failing job", "n=", n, " got ", got);
  } else {
    CHECK(!threw, "exception with the continue strategy", "n=", n);
    conc::tallies listed(n);
    for (auto const& [i, e] : errors) {
      CHECK(i < n && fails(i), "error for a job that did not fail", "index ", i, " n=", n);
      CHECK(listed.add(i) == 1, "error listed twice", "index ", i, " n=", n);
      try { std::rethrow_exception(e); } catch (std::int64_t const x) { CHECK_EQ(static_cast<std::int64_t>(i), x, "error carries another job's exception", "n=", n); }
    }
    CHECK_EQ((n + every - 1) / every, errors.size(), "error missing", "n=", n);
  }
  c.count("large-loops");
}
