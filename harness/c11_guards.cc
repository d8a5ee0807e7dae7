// C11: scope guards and raii wrappers vs. an ownership model.
#include "vf.h"

#include "utl/raii.h"

namespace {
struct boom {};
using log_t = std::vector<int>;

// a cleanup object that is itself observable: runs are logged by identity,
// copies keep the identity; a moved-from one must not be run
struct act {
  act(log_t& l, int id) : l{&l}, id{id}, guts{std::make_unique<int>(id)} {}
  act(act&&) noexcept = default;
  act& operator=(act&&) noexcept = default;
  void operator()() const { l->push_back(guts ? *guts : -1000 - id); }
  log_t* l;
  int id;
  std::unique_ptr<int> guts;
};
}  // namespace

// random histories of guards owned by slots
SCENARIO(finally_history, 6000, 200000) {
  using G = utl::finally<act>;
  log_t log, want;
  int next = 0;
  std::string trace;
  {
    std::vector<std::unique_ptr<G>> slots(5);
    std::vector<int> own(5, -1);  // model: id owned by the slot's guard or -1
    auto const n = 1 + c.r.below(25);
    for (std::size_t q = 0; q < n; ++q) {
      auto const i = c.r.below(5), j = c.r.below(5);
      switch (c.r.below(6)) {
        case 0: case 1:
          if (!slots[i]) { slots[i] = std::make_unique<G>(utl::make_finally(act{log, next})); own[i] = next++; trace += "n" + std::to_string(i); }
          break;
        case 2:  // destroy
          if (slots[i]) { trace += "d" + std::to_string(i); if (own[i] >= 0) want.push_back(own[i]); slots[i].reset(); own[i] = -1; }
          break;
        case 3:  // move construct
          if (slots[i] && !slots[j]) { trace += "m" + std::to_string(i) + std::to_string(j); slots[j] = std::make_unique<G>(std::move(*slots[i])); own[j] = own[i]; own[i] = -1; }
          break;
        case 4:  // move assign
          if (slots[i] && slots[j]) {
            trace += "a" + std::to_string(i) + std::to_string(j);
            if (i != j) { if (own[j] >= 0) want.push_back(own[j]); own[j] = own[i]; own[i] = -1; }
            *slots[j] = std::move(*slots[i]);
          }
          break;
        default:  // overwrite with a new guard
          if (slots[i]) { trace += "o" + std::to_string(i); if (own[i] >= 0) want.push_back(own[i]); *slots[i] = utl::make_finally(act{log, next}); own[i] = next++; }
          break;
      }
      CHECK_EQ(want, log, "history/runs", trace);
    }
    for (std::size_t i = 0; i < 5; ++i) { if (slots[i] && own[i] >= 0) want.push_back(own[i]); slots[i].reset(); CHECK_EQ(want, log, "history/scope-exit", trace); }
  }
  CHECK_EQ(static_cast<std::size_t>(next), log.size(), "history/exactly-once", trace);
  c.count("guards", static_cast<std::uint64_t>(next));
  c.distinct(vf::hstr(trace));
  if (c.want_sample()) c.sample(trace);
}

namespace {
// nested scopes with a throw at a random place
struct frame_sim {
  vf::ctx& c; log_t& log; log_t& want; int& next;
  int throw_in;
  void run(int depth) {
    int const a = next++, b = next++, d = next++;
    if (throw_in-- == 0) throw boom{};
    // model: cleanup pushes happen at scope exit in reverse order
    struct exp { log_t& w; int id; ~exp() { w.push_back(id); } };
    exp const ea{want, a};
    UTL_FINALLY(([&log = log, a] { log.push_back(a); }))
    if (throw_in-- == 0) throw boom{};
    {
      exp const eb{want, b};
      auto fn = [&] { log.push_back(b); };
      UTL_FINALLY(fn)
      if (throw_in-- == 0) throw boom{};
      if (depth > 0) run(depth - 1);
      if (throw_in-- == 0) throw boom{};
    }
    exp const ed{want, d};
    UTL_FINALLY(std::function<void()>{[&] { log.push_back(d); }})
    if (depth > 0 && c.r.chance(1, 2)) return;
    if (throw_in-- == 0) throw boom{};
  }
};
}  // namespace
SCENARIO(finally_scopes, 4000, 100000) {
  log_t log, want; int next = 0;
  frame_sim f{c, log, want, next, static_cast<int>(c.r.below(40))};
  bool threw = false;
  try { f.run(static_cast<int>(c.r.below(6))); } catch (boom const&) { threw = true; }
  CHECK_EQ(want, log, "scopes/order", threw);
  c.count("guards", want.size()); c.count("unwinds", threw);
  c.distinct(vf::hcomb(want.size(), static_cast<std::uint64_t>(threw) * 100 + static_cast<std::uint64_t>(next)));
}

// guards in containers, returned by value, std::function payloads
SCENARIO(finally_values, 3000, 60000) {
  log_t log, want;
  {
    std::vector<utl::finally<std::function<void()>>> v;
    auto const n = c.r.size(40);
    for (std::size_t i = 0; i < n; ++i) v.emplace_back(utl::make_finally(std::function<void()>{[&log, i] { log.push_back(static_cast<int>(i)); }}));
    CHECK(log.empty(), "vector/ran-on-reallocation", log);
    auto const k = c.r.below(n + 1);
    for (std::size_t i = 0; i < k; ++i) v.pop_back();
    for (std::size_t i = 0; i < k; ++i) want.push_back(static_cast<int>(n - 1 - i));
    CHECK_EQ(want, log, "vector/pop");
    std::vector<utl::finally<std::function<void()>>> w = std::move(v);
    CHECK_EQ(want, log, "vector/moved");
    if (!w.empty() && c.r.chance(1, 2)) {  // erase shifts the rest down by move assignment
      auto const e = c.r.below(w.size());
      w.erase(w.begin() + static_cast<std::ptrdiff_t>(e));
      want.push_back(static_cast<int>(e));
      CHECK_EQ(want, log, "vector/erase");
    }
    auto s = std::multiset<int>(log.begin(), log.end());
    w.clear();
    log_t all = log; std::sort(all.begin(), all.end());
    log_t exp(n); std::iota(exp.begin(), exp.end(), 0);
    CHECK_EQ(exp, all, "vector/exactly-once");
  }
  auto const total = log.size();
  {
    auto mk = [&](int id) { auto g = utl::make_finally([&log, id] { log.push_back(id); }); if (c.r.chance(1, 2)) return g; auto h = std::move(g); return h; };
    auto g = mk(-5);
    CHECK_EQ(total, log.size(), "returned/ran-early");
    auto h = std::make_optional(std::move(g)); auto j = std::move(*h);
    CHECK_EQ(total, log.size(), "moved/ran-early");
    h.reset();
    CHECK_EQ(total, log.size(), "moved-from/ran");
    { auto chain = std::move(j); auto from_empty = std::move(j); }  // j owns nothing any more
    CHECK_EQ(total + 1, log.size(), "moved-from-moved/ran");
  }
  CHECK_EQ(total + 1, log.size(), "returned/exactly-once", log);
  c.count("guards", total + 1); c.distinct(total);
}

namespace {
#ifndef VF_LEAN
struct res { int id; std::unique_ptr<int> p; };
using res_arg = res&;
#else
struct res { int id; std::shared_ptr<int> p; };
using res_arg = res const&;
#endif
struct seat {  // copyable, and knows its copies
  int id, copies = 0;
  explicit seat(int const i) : id{i} {}
  seat(seat const& o) : id{o.id}, copies{o.copies + 1} {}
  seat(seat&& o) noexcept : id{o.id}, copies{o.copies} {}
  seat& operator=(seat const&) = default;
};
}  // namespace
SCENARIO(raii, 4000, 100000) {
  log_t closed, want;
  int const id = static_cast<int>(c.r.below(1000));
  bool const omit = c.r.chance(1, 3), thrown = c.r.chance(1, 3);
  try {
    switch (c.idx % 7) {
      case 6: {  // the element itself is passed, not a copy
        seat const* at = nullptr; seat const* seen = nullptr; int copies = -1;
        { auto r = utl::make_raii(seat{id}, [&](seat const& x) { seen = &x; copies = x.copies; closed.push_back(x.id); }); at = &r.get(); r.omit_destruct_ = omit; if (!omit) want.push_back(id); }
        CHECK(seen == (omit ? nullptr : at), "raii/another-element-destructed"); CHECK(omit || copies == 0, "raii/copy-destructed", copies);
        break;
      }
      case 0: {
        auto r = utl::make_raii(int{id}, [&](int x) { closed.push_back(x); });
        CHECK_EQ(id, r.get(), "raii/get"); CHECK_EQ(id, static_cast<int>(r), "raii/convert");
        int& a = r.get(); int& b = r.get(); CHECK(&a == &b, "raii/same-element");
        a = id + 1; CHECK_EQ(id + 1, static_cast<int>(r), "raii/element-modified");
        r.omit_destruct_ = omit;
        if (!omit) want.push_back(id + 1);
        CHECK(closed.empty(), "raii/early");
        if (thrown) throw boom{};
        break;
      }
      case 1: {
        auto r = utl::make_raii(res{id, std::make_unique<int>(id)}, [&](res_arg x) { closed.push_back(*x.p); });
        r.omit_destruct_ = omit; if (!omit) want.push_back(id);
        CHECK(r.get().p && *r.get().p == id && r.get().id == id, "raii/object");
        if (thrown) throw boom{};
        break;
      }
      case 2: {  // lvalue element and lvalue deleter: wrapper refers to them
        res x{id, std::make_unique<int>(id)}; res* seen = nullptr; auto del = [&](res& e) { seen = &e; closed.push_back(e.id); };
        { auto r = utl::make_raii(x, del); CHECK(&r.get() == &x, "raii/reference"); r.omit_destruct_ = omit; }
        CHECK(seen == (omit ? nullptr : &x), "raii/reference-element"); if (!omit) want.push_back(id);
        break;
      }
      case 3: {  // nested, reverse order
        auto r1 = utl::make_raii(int{1}, [&](int x) { closed.push_back(x); });
        auto r2 = utl::make_raii(int{2}, [&](int x) { closed.push_back(x); });
        auto r3 = utl::make_raii(int{3}, [&](int x) { closed.push_back(x); });
        r2.omit_destruct_ = omit; want = omit ? log_t{3, 1} : log_t{3, 2, 1};
        if (thrown) throw boom{};
        break;
      }
      case 4: {
        int const fd = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
        { auto r = utl::make_raii(int{fd}, [&](int f) { closed.push_back(f); ::close(f); }); CHECK(::fcntl(r, F_GETFD) != -1, "raii/fd"); r.omit_destruct_ = omit; if (!omit) want.push_back(fd); }
        CHECK((::fcntl(fd, F_GETFD) != -1) == omit, "raii/fd-closed"); if (omit) ::close(fd);
        break;
      }
      default: {
        std::function<void(std::string)> f = [&](std::string s) { closed.push_back(static_cast<int>(s.size())); };
        { utl::raii<std::string, std::function<void(std::string)>> r{std::string(static_cast<std::size_t>(id), 'q'), std::move(f)}; CHECK_EQ(static_cast<std::size_t>(id), static_cast<std::string>(r).size(), "raii/string"); CHECK_EQ(static_cast<std::size_t>(id), r.get().size(), "raii/convert-consumed"); r.omit_destruct_ = omit; if (!omit) want.push_back(id); }
      }
    }
  } catch (boom const&) {}
  CHECK_EQ(want, closed, "raii/destruct-calls", c.idx % 7);
  c.count("raiis"); c.distinct(vf::hcomb(c.idx % 7, static_cast<std::uint64_t>(id * 4 + omit * 2 + thrown)));
}
