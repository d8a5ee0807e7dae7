// C01: every job exactly once, callback once after it, all joined at return.
#include "conc.h"

#include <array>
#include <deque>
#include <list>
#include <set>
#include <vector>

#include "utl/parallel_for.h"

namespace {
enum { START = 1, END, CB, RETURN };

// the recorded run against the definition
void judge(vf::ctx& c, std::size_t n, vfs::stats const& st, std::vector<vfs::event> const& l, std::size_t errors, bool progress, char const* form) {
  auto const N = static_cast<std::int64_t>(n);
  std::vector<int> state(n, 0);  // 0 new 1 started 2 ended
  std::vector<int> cbs(n, 0);
  bool returned = false;
  for (auto const& e : l) {
    if (e.what == RETURN) { returned = true; continue; }
    CHECK(!returned, "activity after the call returned", form, " n=", n, " ", conc::show(l));
    CHECK(e.a >= 0 && e.a < N, "job outside the range", form, " index ", e.a, " n=", n, " ", conc::show(l));
    auto const i = static_cast<std::size_t>(e.a);
    if (e.what == START) {
      CHECK(state[i] == 0, "job ran twice", form, " index ", i, " n=", n, " ", conc::show(l));
      state[i] = 1;
    } else if (e.what == END) {
      state[i] = 2;
    } else {
      CHECK(state[i] == 2, "callback before the job finished", form, " index ", i, " n=", n, " ", conc::show(l));
      CHECK(++cbs[i] == 1, "callback twice", form, " index ", i, " n=", n, " ", conc::show(l));
    }
  }
  for (std::size_t i = 0; i < n; ++i) {
    CHECK(state[i] != 0, "job missing", form, " index ", i, " n=", n, " ", conc::show(l));
    CHECK(state[i] == 2, "returned before a job finished", form, " index ", i, " n=", n, " ", conc::show(l));
    CHECK(!progress || cbs[i] == 1, "callback missing", form, " index ", i, " n=", n, " ", conc::show(l));
  }
  CHECK(st.live == 0, "worker left after return", form, " n=", n, " left ", st.live);
  CHECK(errors == 0, "error reported without a failing job", form, " n=", n, " errors ", errors);
  c.count("jobs", n);
  if (progress) c.count("callbacks", n);
  c.count(form);
  std::set<int> tids;
  for (auto const& e : l) if (e.what == START) tids.insert(e.tid);
  if (tids.size() > 1) c.count("runs-on-several-threads");
  if (c.want_sample(1) && n > 2 && tids.size() > 1) c.sample(std::string{form} + ": " + conc::show(l, 16));
}

std::size_t draw_n(vf::ctx& c) {
  switch (c.r.below(6)) {
    case 0: return c.r.below(4);
    case 1: case 2: return c.r.below(10);
    case 3: case 4: return c.r.below(40);
    default: return c.r.below(200);
  }
}
utl::parallel_error_strategy strat(vf::ctx& c) {
  return c.r.chance(1, 2) ? utl::parallel_error_strategy::QUIT_EXEC : utl::parallel_error_strategy::CONTINUE_EXEC;
}

struct job {
  conc::jitter j;
  void operator()(std::size_t i) const {
    vfs::log(START, static_cast<std::int64_t>(i));
    j(i);
    vfs::log(END, static_cast<std::int64_t>(i));
  }
};
struct callback {
  conc::jitter j;
  void operator()(std::size_t i) const {
    j(i + 1000);
    vfs::log(CB, static_cast<std::int64_t>(i));
  }
};

struct elem {
  explicit elem(int v) : v{v} {}
  elem(elem&& o) noexcept : v{o.v} {}
#ifdef VF_LEAN
  elem(elem const&) = default;
  elem& operator=(elem const&) = default;
#else
  elem(elem const&) = delete;
#endif
  int v;
  int seen = 0;
  auto operator<=>(elem const& o) const { return v <=> o.v; }
  bool operator==(elem const& o) const { return v == o.v; }
};

template <typename C>
C make(std::size_t n) {
  C x;
  for (std::size_t i = 0; i < n; ++i) {
    if constexpr (requires { x.emplace_back(0); }) x.emplace_back(static_cast<int>(i));
    else x.emplace(static_cast<int>(i));
  }
  return x;
}

// Const: pass the container as const; Labelled: the logging overload
template <typename C, bool Const, bool Labelled>
void container_run(vf::ctx& c, char const* form) {
  auto const n = draw_n(c) / (Labelled ? 1 : 2);
  auto cont = make<C>(n);
  std::map<void const*, std::int64_t> index;
  {
    std::int64_t k = 0;
    for (auto const& x : cont) index[&x] = k++;
  }
  std::map<void const*, std::int64_t> const& at = index;
  conc::jitter const j{c.r.next()};
  auto const how = c.r.below(3);  // plain, progress, progress + strategy
  auto const s = strat(c);
  auto const mod = c.r.chance(1, 8) ? std::size_t{100000} : 1 + c.r.below(20);
  auto const label = c.r.pick({std::string{"label"}, std::string{}, std::string{"{} %s"}, std::string(40, 'l')});
  auto cfg = conc::draw(c);
  std::size_t errors = 0;
  auto fn = [&](auto&& x) {
    auto it = at.find(&x);
    auto const i = it == at.end() ? -1 : it->second;
    vfs::log(START, i);
    j(static_cast<std::uint64_t>(i));
    if constexpr (!Const && !std::is_const_v<std::remove_reference_t<decltype(x)>>) ++x.seen;
    vfs::log(END, i);
  };
  callback cb{j};
  using ref = std::conditional_t<Const || Labelled, C const&, C&>;
  ref r = cont;
  auto const st = conc::session(c, cfg, [&] {
    if constexpr (Labelled) {
      if (how == 0) errors = utl::parallel_for(label, r, mod, fn).size();
      else if (how == 1) errors = utl::parallel_for(label, r, mod, fn, cb).size();
      else errors = utl::parallel_for(label, r, mod, fn, cb, s).size();
    } else {
      if (how == 0) errors = utl::parallel_for(r, fn).size();
      else if (how == 1) errors = utl::parallel_for(r, fn, cb).size();
      else errors = utl::parallel_for(r, fn, cb, s).size();
    }
    vfs::log(RETURN);
  });
  judge(c, n, st, vfs::take_log(), errors, how != 0, form);
  if constexpr (!Const && !Labelled && requires(C& x) { x.emplace_back(0); }) {
    for (auto const& x : cont) CHECK(x.seen == 1, "element not changed in place", form, " value ", x.v, " seen ", x.seen);
  }
}

struct scratch { int calls; std::vector<int> v; };
}  // namespace

SCENARIO(run, 8000, 300000) {
  auto const n = draw_n(c);
  conc::jitter const j{c.r.next()};
  auto const how = c.r.below(4);
  auto const s = strat(c);
  auto const cfg = conc::draw(c);
  std::size_t errors = 0;
  job const f{j};
  callback cb{j};
  auto const st = conc::session(c, cfg, [&] {
    if (how == 0) errors = utl::parallel_for_run(n, f).size();
    else if (how == 1) errors = utl::parallel_for_run(n, f, cb).size();
    else if (how == 2) errors = utl::parallel_for_run(n, f, cb, s).size();
    else errors = utl::parallel_for_run(n, f, callback{j}, s).size();
    vfs::log(RETURN);
  });
  judge(c, n, st, vfs::take_log(), errors, how != 0, "run");
}

SCENARIO(run_threadlocal, 8000, 300000) {
  auto const n = draw_n(c);
  conc::jitter const j{c.r.next()};
  auto const how = c.r.below(3);
  auto const s = strat(c);
  auto const cfg = conc::draw(c);
  std::size_t errors = 0;
  callback cb{j};
  auto f = [&](scratch& t, std::size_t const i) {
    vfs::log(START, static_cast<std::int64_t>(i));
    t.v.push_back(++t.calls);
    j(i);
    vfs::log(END, static_cast<std::int64_t>(i));
  };
  auto const st = conc::session(c, cfg, [&] {
    if (how == 0) errors = utl::parallel_for_run_threadlocal<scratch>(n, f).size();
    else if (how == 1) errors = utl::parallel_for_run_threadlocal<scratch>(n, f, cb).size();
    else errors = utl::parallel_for_run_threadlocal<scratch>(n, f, cb, s).size();
    vfs::log(RETURN);
  });
  judge(c, n, st, vfs::take_log(), errors, how != 0, "run-threadlocal");
}

SCENARIO(containers, 10000, 300000) {
  conc::quiet_clog();
  switch (c.idx % 10) {
    case 0: container_run<std::vector<elem>, false, false>(c, "vector"); break;
    case 1: container_run<std::vector<elem>, true, false>(c, "const-vector"); break;
    case 2: container_run<std::deque<elem>, false, false>(c, "deque"); break;
    case 3: container_run<std::list<elem>, false, false>(c, "list"); break;
    case 4: container_run<std::list<elem>, true, false>(c, "const-list"); break;
    case 5: container_run<std::set<elem>, false, false>(c, "set"); break;
    case 6: container_run<std::set<elem>, true, false>(c, "const-set"); break;
    case 7: container_run<std::deque<elem>, true, false>(c, "const-deque"); break;
    case 8: container_run<std::vector<elem>, false, true>(c, "labelled-vector"); break;
    default: container_run<std::deque<elem>, false, true>(c, "labelled-deque"); break;
  }
}

// few jobs, few workers: many schedules of the same small run
SCENARIO(small, 20000, 800000) {
  auto const n = c.r.below(5);
  auto cfg = conc::draw(c);
  cfg.hc = static_cast<unsigned>(c.r.below(5));
  cfg.strategy = c.r.chance(1, 2) ? 0U : 3U;
  std::size_t errors = 0;
  job const f{conc::jitter{7}};
  callback cb{conc::jitter{7}};
  auto const st = conc::session(c, cfg, [&] {
    errors = utl::parallel_for_run(n, f, cb).size();
    vfs::log(RETURN);
  });
  judge(c, n, st, vfs::take_log(), errors, true, "small");
}

// a job may itself run a parallel loop
SCENARIO(nested, 800, 20000) {
  auto const n = 1 + c.r.below(4), m = c.r.below(5);
  auto cfg = conc::draw(c);
  cfg.hc = 1 + static_cast<unsigned>(c.r.below(3));
  std::size_t errors = 0;
  conc::jitter const j{c.r.next()};
  auto const st = conc::session(c, cfg, [&] {
    errors = utl::parallel_for_run(n, [&](std::size_t const i) {
      utl::parallel_for_run(m, [&](std::size_t const k) {
        vfs::log(START, static_cast<std::int64_t>(i * m + k));
        j(i * m + k);
        vfs::log(END, static_cast<std::int64_t>(i * m + k));
      });
    }).size();
    vfs::log(RETURN);
  });
  judge(c, n * m, st, vfs::take_log(), errors, false, "nested");
}

// more jobs than any narrow counter can hold
SCENARIO(large, VF_LONG(24, 24), 400) {
  conc::quiet_clog();
  static constexpr std::size_t sizes[] = {255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 131073};
  auto const n = sizes[c.r.below(std::size(sizes))] + (c.r.chance(1, 3) ? c.r.below(5000) : 0);
  auto cfg = conc::draw(c);
  cfg.hc = 1 + static_cast<unsigned>(c.r.below(4));
  cfg.max_steps = 40000000;
  cfg.spurious = 0;
  cfg.mem_points = 0;
  conc::tallies ran(n), reported(n);
  std::size_t errors = 0, outside = 0, early = 0;
  auto f = [&](std::size_t const i) { if (i >= n) ++outside; else ran.add(i); };
  auto tf = [&](int&, std::size_t const i) { f(i); };
  auto cb = [&](std::size_t const i) {
    if (i >= n) { ++outside; return; }
    if (ran.at(i) != 1) ++early;
    reported.add(i);
  };
  std::vector<std::size_t> v(n);
  std::iota(v.begin(), v.end(), std::size_t{0});
  auto const form = c.idx % 4;
  auto const st = conc::session(c, cfg, [&] {
    if (form == 0) errors = utl::parallel_for_run(n, f, cb, strat(c)).size();
    else if (form == 1) errors = utl::parallel_for_run_threadlocal<int>(n, tf, cb, strat(c)).size();
    else if (form == 2) errors = utl::parallel_for(v, f, cb).size();
    else errors = utl::parallel_for(std::string{"l"}, v, 1000, f, cb).size();
  });
  CHECK(st.live == 0, "worker left after return", "n=", n);
  CHECK(errors == 0, "error reported without a failing job", "n=", n);
  CHECK(outside == 0, "job outside the range", "n=", n);
  CHECK(early == 0, "callback before the job finished", "n=", n);
  for (std::size_t i = 0; i < n; ++i) {
    CHECK(ran.at(i) == 1, "job not run exactly once", "index ", i, " n=", n, " form ", form, " runs ", ran.at(i));
    CHECK(reported.at(i) == 1, "callback not exactly once", "index ", i, " n=", n, " form ", form, " calls ", reported.at(i));
  }
  c.count("large-loops");
}
