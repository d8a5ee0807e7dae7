// Thread names: after every call each live thread must carry exactly the name
// it was given last, as told by the system, and no other thread's may change.
#include "vf.h"

#include <barrier>
#include <condition_variable>
#include <fstream>
#include <thread>

#include <pthread.h>
#include <sys/syscall.h>

#include "utl/set_thread_name.h"

namespace {
constexpr std::size_t kMax = 15;  // bytes, Linux
std::string name_of(pthread_t t) {
  char b[64];
  std::memset(b, '#', sizeof b);
  if (pthread_getname_np(t, b, sizeof b) != 0) return "<error>";
  return b;
}
std::string comm_of(long tid) {
  std::ifstream f{"/proc/self/task/" + std::to_string(tid) + "/comm"};
  std::string s((std::istreambuf_iterator<char>(f)), {});
  if (!s.empty() && s.back() == '\n') s.pop_back();
  return s;
}
std::string any_name(vf::rng& r) {
  auto const n = r.chance(1, 4) ? kMax : r.chance(1, 10) ? 0 : r.below(kMax + 1);
  std::string s;
  for (std::size_t i = 0; i < n; ++i) s += r.chance(3, 4) ? r.pick({'a', 'Z', '0', '-', '_', ' ', '/', '%', '.'}) : static_cast<char>(1 + r.below(255));
  for (auto& ch : s) if (ch == '\n') ch = '!';
  return s;
}
// a thread that carries out orders
struct worker {
  worker() : t{[this] { loop(); }} {
    std::unique_lock<std::mutex> l{m};
    cv.wait(l, [&] { return tid != 0; });
  }
  ~worker() {
    { std::lock_guard<std::mutex> l{m}; quit = true; }
    cv.notify_all();
    if (t.joinable()) t.join();
  }
  void loop() {
    std::unique_lock<std::mutex> l{m};
    tid = syscall(SYS_gettid);
    cv.notify_all();
    while (true) {
      cv.wait(l, [&] { return quit || job; });
      if (quit) return;
      job();
      job = nullptr;
      cv.notify_all();
    }
  }
  template <typename F> void run(F&& f) {
    std::unique_lock<std::mutex> l{m};
    job = f;
    cv.notify_all();
    cv.wait(l, [&] { return !job; });
  }
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  long tid = 0;
  bool quit = false;
  std::thread t;
};
}  // namespace

SCENARIO(history, 1200, 40000) {
  auto const n = 1 + c.r.below(4);
  std::vector<std::unique_ptr<worker>> ws;
  std::vector<std::string> want{name_of(pthread_self())};
  for (std::size_t i = 0; i < n; ++i) { ws.push_back(std::make_unique<worker>()); want.push_back(name_of(ws[i]->t.native_handle())); }
  std::uint64_t h = n;
  for (auto k = 1 + c.r.below(10); k; --k) {
    auto const who = c.r.below(n + 1);
    auto const nm = any_name(c.r);
    vf::note("name " + nm);
    std::string const given = nm;
    auto const kind = c.r.below(2);
    if (who == 0) utl::set_current_thread_name(given);
    else if (kind == 0) utl::set_thread_name(ws[who - 1]->t, given);
    else ws[who - 1]->run([&] { utl::set_current_thread_name(given); });
    want[who] = nm;
    CHECK_EQ(nm, given, "argument-changed");
    c.count("names-set");
    for (std::size_t i = 0; i <= n; ++i) {
      auto const th = i == 0 ? pthread_self() : ws[i - 1]->t.native_handle();
      auto const got = name_of(th);
      CHECK_EQ(want[i], got, i == who ? "name" : "other-thread-renamed", "thread ", i, " after naming ", who, " ", nm);
      CHECK_EQ(got, comm_of(i == 0 ? syscall(SYS_gettid) : ws[i - 1]->tid), "system-name");
      c.count("names-read");
    }
    h = vf::hcomb(h, vf::hcomb(who * 2 + kind, vf::hstr(nm)));
  }
  c.distinct(h);
  if (c.want_sample()) c.sample(vf::cat(want));
  utl::set_current_thread_name("c42");
}
SCENARIO(concurrent, 300, 8000) {  // every thread names itself while the others do
  auto const n = 2 + c.r.below(5);
  auto const seed = c.r.next();
  std::barrier<> b{static_cast<std::ptrdiff_t>(n)};
  std::vector<std::string> bad(n);
  std::vector<std::thread> ts;
  for (std::size_t t = 0; t < n; ++t) ts.emplace_back([&, t] {
    vf::rng r{vf::hcomb(seed, t)};
    for (int k = 0; k < 8; ++k) {
      auto const nm = any_name(r);
      b.arrive_and_wait();
      utl::set_current_thread_name(nm);
      auto const got = name_of(pthread_self());
      b.arrive_and_wait();
      auto const later = name_of(pthread_self());
      if (bad[t].empty() && (got != nm || later != nm)) bad[t] = vf::cat("want ", nm, " got ", got, " then ", later);
    }
  });
  for (auto& t : ts) t.join();
  for (auto const& x : bad) CHECK(x.empty(), "name", x);
  c.count("names-set", n * 8);
  c.count("names-read", n * 16);
  c.distinct(seed);
}
SCENARIO(lengths, 16, 16) {  // every admissible length, by another thread and by itself
  worker w;
  for (int ch = 1; ch < 256; ++ch) {
    if (ch == '\n') continue;
    std::string const nm(c.idx, static_cast<char>(ch));
    utl::set_thread_name(w.t, std::string(kMax - c.idx, '?'));
    utl::set_thread_name(w.t, nm);
    CHECK_EQ(nm, name_of(w.t.native_handle()), "name");
    w.run([&] { utl::set_current_thread_name(std::string(kMax - c.idx, '?')); utl::set_current_thread_name(nm); });
    CHECK_EQ(nm, name_of(w.t.native_handle()), "name-of-current");
    c.count("names-set", 4);
  }
}
