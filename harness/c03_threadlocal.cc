// C03: per-worker state objects of parallel_for_run_threadlocal.
#include "conc.h"

#include <vector>

#include "utl/parallel_for.h"

namespace {
enum { CTOR = 1, DTOR, USE, DONE, RETURN, COPY };

std::atomic<std::int64_t> serial{0};
// Every construction and destruction is logged with the object's number.
struct probe {
  probe() : id{++serial} { vfs::log(CTOR, id); vfs::point(); }
  probe(probe const&) : id{++serial} { vfs::log(COPY, id); }
  probe& operator=(probe const&) = default;
  ~probe() { vfs::point(); vfs::log(DTOR, id); id = -id; }
  std::int64_t id;
};
// not movable: can only exist where the worker made it
struct pinned : probe {
  pinned() = default;
#ifndef VF_LEAN
  pinned(pinned const&) = delete;
  pinned& operator=(pinned const&) = delete;
#endif
  int calls = 0;
  std::vector<std::size_t> jobs;
};
// aggregates: value-initialised means zeroed
struct aggregate {
  probe p;
  int calls;
  double d;
  void* q;
  char text[40];
  std::size_t more[17];
};
struct movable : probe {
  std::string s = "initial";
  std::vector<int> v = std::vector<int>(3, 5);
  int calls = 0;
};
std::string fresh(pinned const& s) { return s.calls == 0 && s.jobs.empty() ? "" : "calls/jobs"; }
std::string fresh(aggregate const& s) {
  if (s.calls != 0 || s.d != 0 || s.q != nullptr) return "scalar member not zero";
  for (auto x : s.text) if (x) return "array member not zero";
  for (auto x : s.more) if (x) return "array member not zero";
  return "";
}
std::string fresh(movable const& s) { return s.s == "initial" && s.v == std::vector<int>(3, 5) && s.calls == 0 ? "" : "members"; }
std::int64_t id(pinned const& s) { return s.id; }
std::int64_t id(aggregate const& s) { return s.p.id; }
std::int64_t id(movable const& s) { return s.id; }

struct fail {};

template <typename T>
void one(vf::ctx& c, vfs::config const& cfg, char const* form) {
  auto const n = c.r.below(3) == 0 ? c.r.below(6) : c.r.below(40);
  conc::jitter const j{c.r.next()};
  unsigned const fail_in = c.r.chance(1, 3) ? 1 + static_cast<unsigned>(c.r.below(10)) : 0;
  auto const quit = c.r.chance(1, 2);
  auto const fseed = c.r.next();
  std::string dirty;
  std::vector<int> corrupt(n, 0);
  bool threw = false;
  auto const st = conc::session(c, cfg, [&] {
    try {
      utl::parallel_for_run_threadlocal<T>(
          n,
          [&](T& s, std::size_t const i) {
            vfs::log(USE, id(s), static_cast<std::int64_t>(i));
            if (s.calls == 0 && dirty.empty()) {  // only the first job of the object
              auto const d = fresh(s);
              if (!d.empty() && !corrupt.empty()) corrupt[i] = 2;
            } else if (s.calls < 0 || s.calls > static_cast<int>(n)) {
              corrupt[i] = 2;
            }
            auto const before = ++s.calls;
            if constexpr (requires { s.v; }) s.v.push_back(before);
            if constexpr (requires { s.text; }) { s.text[before % 40] = 1; s.q = &s; s.more[before % 17] = i; }
            j(i);
            if (s.calls != before) corrupt[i] = 1;
            vfs::log(DONE, id(s), static_cast<std::int64_t>(i));
            if (fail_in && vf::hcomb(fseed, i) % fail_in == 0) throw fail{};
          },
          utl::noop_progress_update{}, quit ? utl::parallel_error_strategy::QUIT_EXEC : utl::parallel_error_strategy::CONTINUE_EXEC);
    } catch (fail const&) {
      threw = true;
    }
    vfs::log(RETURN);
  });
  auto const l = vfs::take_log();
  auto const info = [&] { return std::string{form} + " n=" + std::to_string(n) + " hc=" + std::to_string(cfg.hc) + " " + conc::show(l); };
  struct obj { int made_by, used_by = -1; bool destroyed = false; std::int64_t in_use = -1; std::size_t uses = 0; };
  std::map<std::int64_t, obj> objs;
  std::map<int, std::int64_t> of_thread;
  bool returned = false;
  for (auto const& e : l) {
    if (e.what == RETURN) { returned = true; continue; }
    CHECK(!returned, "state used or destroyed after the call", info());
    if (e.what == CTOR || e.what == COPY) {
      CHECK(objs.emplace(e.a, obj{e.tid}).second, "state constructed twice", info());
      continue;
    }
    auto it = objs.find(e.a);
    CHECK(it != objs.end(), "job received an object that was never constructed", "id ", e.a, " ", info());
    auto& o = it->second;
    CHECK(!o.destroyed, e.what == DTOR ? "state destroyed twice" : "state used after its destruction", "object ", e.a, " ", info());
    if (e.what == USE) {
      CHECK(o.made_by == e.tid, "state was made by another thread", "object ", e.a, " ", info());
      CHECK(o.in_use == -1, "two jobs use one state at the same time", "object ", e.a, " ", info());
      o.in_use = e.b;
      auto const [t, fst] = of_thread.emplace(e.tid, e.a);
      CHECK(fst || t->second == e.a, "worker changed its state object", "thread ", e.tid, " ", info());
      o.used_by = e.tid;
      ++o.uses;
    } else if (e.what == DONE) {
      o.in_use = -1;
    } else {
      CHECK(o.in_use == -1, "state destroyed while in use", "object ", e.a, " ", info());
      CHECK(o.made_by == e.tid, "state destroyed by another thread", "object ", e.a, " ", info());
      o.destroyed = true;
    }
  }
  std::size_t used = 0;
  for (auto const& [k, o] : objs) {
    CHECK(o.destroyed, "state not destroyed before the call returned", "object ", k, " ", info());
    used += o.uses != 0;
    if (o.uses > 1) c.count("objects-reused");
  }
  for (std::size_t i = 0; i < n; ++i) {
    CHECK(corrupt[i] != 2, "state not freshly value-initialised", "job ", i, " ", info());
    CHECK(corrupt[i] != 1, "state changed by another job meanwhile", "job ", i, " ", info());
  }
  CHECK(objs.size() <= std::max<std::size_t>(1, cfg.hc), "more states than hardware threads", "objects ", objs.size(), " ", info());
  CHECK(st.live == 0, "worker left", info());
  c.count("states", objs.size());
  c.count("states-used", used);
  if (threw) c.count("threw");
  if (used > 1) c.count("runs-with-several-states");
  if (c.want_sample(1) && used > 1) c.sample(info());
}
}  // namespace

SCENARIO(states, 30000, 1500000) {
  auto const cfg = conc::draw(c);
  switch (c.idx % 3) {
    case 0: one<pinned>(c, cfg, "immovable"); break;
    case 1: one<aggregate>(c, cfg, "aggregate"); break;
    default: one<movable>(c, cfg, "class"); break;
  }
}

// scalar state: zero-initialised
SCENARIO(scalars, 4000, 100000) {
  auto const cfg = conc::draw(c);
  auto const n = c.r.below(30);
  std::vector<std::int64_t> seen(n, 0);
  std::vector<int> by(n, 0);
  conc::jitter const j{c.r.next()};
  conc::session(c, cfg, [&] {
    utl::parallel_for_run_threadlocal<std::int64_t>(n, [&](std::int64_t& s, std::size_t i) {
      seen[i] = s;
      by[i] = vfs::tid();
      j(i);
      s = seen[i] + 1;
    });
  });
  // a worker's jobs count up from zero without a gap
  std::map<int, std::vector<std::int64_t>> per;
  for (std::size_t i = 0; i < n; ++i) per[by[i]].push_back(seen[i]);
  for (auto& [t, v] : per) {
    std::sort(v.begin(), v.end());
    for (std::size_t k = 0; k < v.size(); ++k) CHECK_EQ(static_cast<std::int64_t>(k), v[k], "worker's scalar state", "n=", n, " worker ", t, " values ", v);
  }
  c.count("scalar-jobs", n);
}

// several loops at the same time (called by threads of the program or by the
// jobs of an outer loop): each has its own states
SCENARIO(several, 1500, 60000) {
  auto const k = 2 + c.r.below(2);
  auto const from_jobs = c.r.chance(1, 3);
  auto cfg = conc::draw(c);
  cfg.hc = static_cast<unsigned>(c.r.below(5));
  struct st_t { probe p; std::int64_t loop; std::int64_t jobs; };
  std::vector<std::size_t> n;
  for (std::size_t i = 0; i < k; ++i) n.push_back(c.r.below(16));
  conc::jitter const j{c.r.next()};
  // per loop: of each job the object, the loop noted in it before, its count
  struct seen { std::int64_t id = 0, loop = 0, jobs = 0; int tid = -1; };
  std::vector<std::vector<seen>> got(k);
  for (std::size_t i = 0; i < k; ++i) got[i].resize(n[i]);
  auto const st = conc::session(c, cfg, [&] {
    auto const go = [&](std::size_t const i) {
      utl::parallel_for_run_threadlocal<st_t>(n[i], [&, i](st_t& s, std::size_t const x) {
        got[i][x] = seen{s.p.id, s.loop, s.jobs, vfs::tid()};
        s.loop = static_cast<std::int64_t>(i) + 1;
        ++s.jobs;
        j(x);
      });
    };
    if (from_jobs) {
      utl::parallel_for_run_threadlocal<int>(k, [&](int&, std::size_t const i) { go(i); });
    } else {
      std::vector<std::thread> ts;
      for (std::size_t i = 0; i < k; ++i) ts.emplace_back(go, i);
      for (auto& t : ts) t.join();
    }
  });
  auto const l = vfs::take_log();
  std::map<std::int64_t, std::pair<int, int>> life;  // object: thread that made it, times destroyed
  for (auto const& e : l) {
    if (e.what == CTOR || e.what == COPY) life[e.a] = {e.tid, 0};
    if (e.what == DTOR) CHECK(life.count(e.a) && ++life[e.a].second == 1 && life[e.a].first == e.tid, "state not destroyed once by its worker", conc::show(l));
  }
  std::map<std::int64_t, std::size_t> loop_of;
  for (std::size_t i = 0; i < k; ++i) {
    std::map<int, std::vector<seen>> per;
    for (auto const& s : got[i]) {
      CHECK(life.count(s.id), "job received an object that was never constructed", "loop ", i);
      CHECK(life[s.id].first == s.tid, "state was made by another thread", "loop ", i);
      CHECK(loop_of.emplace(s.id, i).first->second == i, "loops share a state object", "object ", s.id);
      per[s.tid].push_back(s);
    }
    CHECK(per.size() <= std::max<std::size_t>(1, cfg.hc), "more workers than hardware threads", per.size());
    for (auto& [t, v] : per) {
      std::sort(v.begin(), v.end(), [](seen const& a, seen const& b) { return a.jobs < b.jobs; });
      for (std::size_t x = 0; x < v.size(); ++x) {
        CHECK(v[x].id == v[0].id, "worker changed its state object", "loop ", i);
        CHECK_EQ(static_cast<std::int64_t>(x), v[x].jobs, "state not fresh or used by another loop", "loop ", i);
        CHECK_EQ(x ? static_cast<std::int64_t>(i) + 1 : 0, v[x].loop, "state not fresh or used by another loop", "loop ", i);
      }
    }
  }
  for (auto const& [o, x] : life) CHECK(x.second == 1, "state not destroyed before the call returned", "object ", o);
  CHECK(st.live == 0, "worker left", "");
  c.count("simultaneous-loops", k);
}

// long loops: a worker keeps its one state for all of its many jobs
SCENARIO(large, VF_LONG(8, 16), 200) {
  auto const n = c.r.pick({std::size_t{300}, std::size_t{5000}, std::size_t{33000}, std::size_t{66000}}) + c.r.below(100);
  auto cfg = conc::draw(c);
  cfg.hc = 1 + static_cast<unsigned>(c.r.below(4));
  cfg.max_steps = 60000000;
  cfg.spurious = 0;
  cfg.mem_points = 0;
  std::atomic<int> made{0}, gone{0};
  struct counting {
    std::size_t jobs = 0;
    std::vector<std::size_t> last;
  };
  struct life {
    explicit life(std::atomic<int>* g) : g{g} {}
    ~life() { ++*g; }
    std::atomic<int>* g;
  };
  struct state : counting { std::unique_ptr<life> l; };
  std::vector<std::size_t> position(n, 0);
  std::vector<int> by(n, -1);
  conc::session(c, cfg, [&] {
    utl::parallel_for_run_threadlocal<state>(n, [&](state& s, std::size_t const i) {
      if (!s.l) { s.l = std::make_unique<life>(&gone); ++made; }
      s.last.assign(1, i);
      position[i] = s.jobs++;
      by[i] = vfs::tid();
    });
  });
  CHECK_EQ(made.load(), gone.load(), "states destroyed", "n=", n);
  CHECK(made.load() <= static_cast<int>(cfg.hc), "more states than hardware threads", "made ", made.load(), " hc=", cfg.hc);
  std::map<int, std::size_t> next;
  for (std::size_t i = 0; i < n; ++i) {  // a worker takes its jobs in ascending order
    CHECK(by[i] != -1, "job missing", "index ", i);
    CHECK_EQ(next[by[i]], position[i], "worker changed its state object", "index ", i, " n=", n, " hc=", cfg.hc);
    ++next[by[i]];
  }
  c.count("large-loops");
}
