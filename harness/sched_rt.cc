// Controlled scheduler. Compiled without instrumentation and linked instead of
// the ThreadSanitizer runtime: the program is built with -fsanitize=thread, so
// the compiler calls the __tsan_* functions below for every memory access and
// atomic operation; the pthread functions are interposed.
#include "vfsched.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>

#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <thread>
#include <unordered_map>
#include <vector>

extern "C" {
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* __libc_memalign(std::size_t, std::size_t);
void __libc_free(void*);
}

namespace {

long raw_futex(void* p, int op, int val, timespec const* ts = nullptr) {
  long ret;
  register long r10 __asm__("r10") = reinterpret_cast<long>(ts);
  __asm__ volatile("syscall" : "=a"(ret) : "0"(SYS_futex), "D"(p), "S"(static_cast<long>(op)), "d"(static_cast<long>(val)), "r"(r10) : "rcx", "r11", "memory");
  return ret;
}

template <typename F> F real(char const* name) {
  void* p = nullptr;
  if (std::strncmp(name, "pthread_cond_", 13) == 0) p = dlvsym(RTLD_NEXT, name, "GLIBC_2.3.2");
  if (!p) p = dlsym(RTLD_NEXT, name);
  return reinterpret_cast<F>(p);
}
#define REAL(name) ([] { static auto f = real<decltype(&name)>(#name); return f; }())

struct vc_t {
  std::vector<std::uint32_t> v;
  std::uint32_t at(unsigned i) const { return i < v.size() ? v[i] : 0; }
  void join(vc_t const& o) {
    if (o.v.size() > v.size()) v.resize(o.v.size());
    for (std::size_t i = 0; i < o.v.size(); ++i) if (o.v[i] > v[i]) v[i] = o.v[i];
  }
  void tick(unsigned i) { if (i >= v.size()) v.resize(i + 1); ++v[i]; }
};

enum st { RUN, MUTEX, COND, JOIN, RW_R, RW_W, FUTEX, ONCE, SEM, BARRIER, DONE };
char const* const st_name[] = {"runnable", "mutex", "condition variable", "join", "shared lock", "exclusive lock", "futex", "once", "semaphore", "barrier", "done"};

struct thr {
  int id;
  st state = RUN;
  void* on = nullptr;       // what it waits for
  bool timed = false;       // wait may time out
  bool woken = false;       // cond/futex: signalled
  bool timed_out = false;
  bool detached = false, joined = false, yielded = false;
  std::uint64_t prio = 0;
  std::atomic<int> baton{0};
  pthread_t real{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  vc_t vc, rel_fence, acq_pending;
  std::vector<std::pair<void (*)(void*), void*>> dtors;  // of thread_local objects
};

struct mtx { thr* owner = nullptr; int depth = 0; vc_t vc; };
struct rw { thr* writer = nullptr; std::vector<thr*> readers; vc_t vc, rvc; };
struct once_t { int state = 0; vc_t vc; };
struct bar_t { unsigned count = 0, arrived = 0, gen = 0; vc_t vc; };

struct access { unsigned tid; std::uint32_t clk; std::uint8_t mask; bool write, atomic; void* pc; };
struct granule { std::vector<access> a; };
struct page { granule* g[512]; };

struct world {
  vfs::config cfg;
  vfs::stats st;
  std::vector<thr*> threads;
  thr* cur = nullptr;
  std::uint64_t rng = 0;
  std::uint64_t run_len = 0;
  thr* victim = nullptr;
  std::vector<std::uint64_t> change_at;
  std::uint64_t low_prio = 1000000;
  std::unordered_map<void*, mtx> mutexes;
  std::unordered_map<void*, rw> rws;
  std::unordered_map<void*, once_t> onces;
  std::unordered_map<void*, bar_t> bars;
  std::unordered_map<void*, vc_t> sync;  // atomics, semaphores
  std::unordered_map<std::uintptr_t, page*> shadow;
};
world* W = nullptr;
bool volatile active = false;
__thread thr* self = nullptr;
__thread int in_rt = 0;
unsigned hc_value = 2;
std::vector<vfs::event>* the_log = nullptr;
std::atomic<std::uint64_t> heartbeat{0};

struct guard { guard() { ++in_rt; } ~guard() { --in_rt; } };

std::uint64_t rnd() {
  auto z = (W->rng += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
std::uint64_t below(std::uint64_t n) { return n <= 1 ? 0 : rnd() % n; }

void say(char const* s) { [[maybe_unused]] auto r = ::write(2, s, std::strlen(s)); }
[[noreturn]] void die(char const* kind, int code) {
  char b[512];
  std::snprintf(b, sizeof b, "VF-SCHED: %s (step %llu, %u threads)\n", kind, static_cast<unsigned long long>(W->st.steps), W->st.created);
  say(b);
  for (auto* t : W->threads) {
    std::snprintf(b, sizeof b, "  thread %d%s: %s %p\n", t->id, t == W->cur ? " (current)" : "", st_name[t->state], t->on);
    say(b);
  }
  ::_exit(code);
}

bool runnable(thr* t) {
  switch (t->state) {
    case RUN: return true;
    case MUTEX: return W->mutexes[t->on].owner == nullptr;
    case COND: return t->woken;
    case FUTEX: return t->woken;
    case JOIN: return static_cast<thr*>(t->on)->state == DONE;
    case RW_R: return W->rws[t->on].writer == nullptr;
    case RW_W: { auto& r = W->rws[t->on]; return r.writer == nullptr && r.readers.empty(); }
    case ONCE: return W->onces[t->on].state != 1;
    case SEM: return t->woken;
    case BARRIER: return t->woken;
    default: return false;
  }
}

void switch_to(thr* n) {
  auto* me = self;
  if (n == W->cur) return;
  W->cur = n;
  ++W->st.switches;
  W->run_len = 0;
  n->baton.store(1, std::memory_order_release);
  raw_futex(&n->baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
  if (!me) return;
  while (me->baton.load(std::memory_order_acquire) == 0) raw_futex(&me->baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
  me->baton.store(0, std::memory_order_relaxed);
}

// picks the next thread; the current one may be blocked or done
void reschedule() {
  auto& w = *W;
  heartbeat.fetch_add(1, std::memory_order_relaxed);
  if (++w.st.steps > w.cfg.max_steps) die("no-progress step limit", 96);
  static thread_local std::vector<thr*> cand, waiting;
  cand.clear();
  waiting.clear();
  for (auto* t : w.threads) {
    if (t->state == DONE) continue;
    if (runnable(t)) cand.push_back(t);
    else if (t->timed || (t->state == COND && w.cfg.spurious)) waiting.push_back(t);
  }
  if (!waiting.empty()) {
    if (cand.empty() || below(100) < (w.cfg.spurious ? w.cfg.spurious : 4)) {
      std::vector<thr*> ok;
      for (auto* t : waiting) if (t->timed || !cand.empty()) ok.push_back(t);
      if (!ok.empty()) {
        auto* t = ok[below(ok.size())];
        t->timed_out = t->timed && (cand.empty() || below(2));
        if (t->state == COND || t->state == FUTEX || t->state == SEM) { t->woken = true; ++w.st.spurious; cand.push_back(t); }
        else if (t->timed) { t->timed_out = true; t->state = RUN; cand.push_back(t); }
      }
    }
  }
  if (cand.empty()) die("deadlock", 96);
  auto* me = w.cur;
  bool const me_ok = std::find(cand.begin(), cand.end(), me) != cand.end();
  thr* n = nullptr;
  auto other = [&]() -> thr* {
    if (cand.size() == 1) return cand[0];
    thr* x;
    do { x = cand[below(cand.size())]; } while (x == me);
    return x;
  };
  ++w.run_len;
  if (me_ok && (me->yielded || w.run_len > 3000)) {
    n = other();
    me->prio = --w.low_prio;
  } else {
    switch (w.cfg.strategy % 6) {
      case 0: n = cand[below(cand.size())]; break;
      case 1: n = me_ok && below(4) ? me : cand[below(cand.size())]; break;
      case 2: n = me_ok && below(20) ? me : cand[below(cand.size())]; break;
      case 3: {  // priorities with change points
        for (auto s : w.change_at) if (s == w.st.steps && me_ok) me->prio = --w.low_prio;
        n = *std::max_element(cand.begin(), cand.end(), [](thr* a, thr* b) { return a->prio < b->prio; });
        break;
      }
      case 4: {  // one thread is held back for a while
        if (!w.victim || below(150) == 0) w.victim = w.threads[below(w.threads.size())];
        n = cand[below(cand.size())];
        if (n == w.victim && cand.size() > 1 && below(60)) do { n = cand[below(cand.size())]; } while (n == w.victim);
        break;
      }
      default: {  // next in turn
        auto it = std::find_if(cand.begin(), cand.end(), [&](thr* t) { return t->id > me->id; });
        n = it == cand.end() ? cand[0] : *it;
        if (below(10) == 0) n = cand[below(cand.size())];
        break;
      }
    }
  }
  if (me) me->yielded = false;
  if (cand.size() > 1 || n != me) w.st.hash = (w.st.hash ^ static_cast<std::uint64_t>(n->id + 1)) * 1099511628211ULL + (w.st.hash >> 31);
  switch_to(n);
}

bool on() { return active && self != nullptr && in_rt == 0; }
void sp() {
  guard g;
  reschedule();
}
void block(st s, void* p, bool timed = false) {
  self->state = s;
  self->on = p;
  self->timed = timed;
  self->woken = false;
  self->timed_out = false;
  reschedule();
  self->state = RUN;
  self->on = nullptr;
  self->timed = false;
}

// ---------------------------------------------------------------- races
void clear_shadow(std::uintptr_t b, std::size_t n) {
  if (W->shadow.empty()) return;
  auto const e = b + n;
  if (n > (std::size_t{1} << 24)) {
    for (auto& [p, pg] : W->shadow) if (p << 12 >= b && (p << 12) + 4096 <= e) for (auto*& g : pg->g) if (g) g->a.clear();
    return;
  }
  for (auto p = b >> 12; p <= (e - 1) >> 12; ++p) {
    auto it = W->shadow.find(p);
    if (it == W->shadow.end()) continue;
    for (unsigned i = 0; i < 512; ++i) {
      auto const a = (p << 12) + i * 8;
      if (a + 8 > b && a < e && it->second->g[i]) it->second->g[i]->a.clear();
    }
  }
}
void describe(char* b, std::size_t n, access const& x) {
  Dl_info d{};
  auto const ok = dladdr(x.pc, &d);
  std::snprintf(b, n, "  %s%s by thread %u at %s+0x%lx (%s)\n", x.atomic ? "atomic " : "", x.write ? "write" : "read", x.tid,
                ok && d.dli_sname ? d.dli_sname : "?", ok && d.dli_saddr ? static_cast<unsigned long>(static_cast<char*>(x.pc) - static_cast<char*>(d.dli_saddr)) : 0UL,
                ok && d.dli_fname ? d.dli_fname : "?");
}
void mem(void const* addr, std::size_t size, bool write, bool atomic, void* pc) {
  if (!on()) return;
  guard g;
  ++W->st.accesses;
  if (!atomic && W->cfg.mem_points && below(W->cfg.mem_points) == 0) reschedule();
  if (!W->cfg.races) return;
  auto a = reinterpret_cast<std::uintptr_t>(addr);
  auto const e = a + size;
  auto const me = static_cast<unsigned>(self->id);
  auto const clk = self->vc.at(me);
  while (a < e) {
    auto const off = a & 7;
    auto const n = std::min<std::uintptr_t>(8 - off, e - a);
    auto const mask = static_cast<std::uint8_t>(((1U << n) - 1U) << off);
    auto*& pg = W->shadow[a >> 12];
    if (!pg) pg = static_cast<page*>(__libc_calloc(1, sizeof(page)));
    auto*& gr = pg->g[(a & 4095) >> 3];
    if (!gr) gr = new granule{};
    bool have = false;
    for (auto& x : gr->a) {
      if (x.tid == me) {
        if (x.write == write && x.atomic == atomic && x.mask == mask) { x.clk = clk; x.pc = pc; have = true; }
        continue;
      }
      if (!(x.mask & mask) || (!x.write && !write) || (x.atomic && atomic)) continue;
      if (x.clk > self->vc.at(x.tid)) {
        char b[512], c1[256], c2[256];
        describe(c1, sizeof c1, access{me, clk, mask, write, atomic, pc});
        describe(c2, sizeof c2, x);
        std::snprintf(b, sizeof b, "VF-SCHED: data-race of %u bytes at %p\n", static_cast<unsigned>(n), reinterpret_cast<void*>(a));
        say(b); say(c1); say(c2);
        ::_exit(95);
      }
    }
    if (!have) {
      if (gr->a.size() > 48) {  // drop entries every thread has seen (ordered before us)
        gr->a.erase(std::remove_if(gr->a.begin(), gr->a.end(), [&](access const& x) { return x.tid != me && x.clk <= self->vc.at(x.tid) && write && !x.write; }), gr->a.end());
      }
      gr->a.push_back({me, clk, mask, write, atomic, pc});
    }
    a += n;
  }
}
void tick() { self->vc.tick(static_cast<unsigned>(self->id)); }
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void at_load(void const* p, int mo) {
  auto it = W->sync.find(const_cast<void*>(p));
  if (it == W->sync.end()) return;
  if (acq(mo)) self->vc.join(it->second); else self->acq_pending.join(it->second);
}
void at_store(void* p, int mo) {
  auto& v = W->sync[p];
  v = rel(mo) ? self->vc : self->rel_fence;
  tick();
}
void at_rmw(void* p, int mo) {
  at_load(p, mo);
  auto& v = W->sync[p];
  v.join(rel(mo) ? self->vc : self->rel_fence);
  tick();
}
void pre_atomic() {
  guard g;
  ++W->st.atomics;
  reschedule();
}

// ---------------------------------------------------------------- threads
void thread_done() {
  auto* me = self;
  guard g;
  me->state = DONE;
  tick();
  // hand over without waiting
  auto& w = *W;
  std::vector<thr*> c, timed;
  for (auto* t : w.threads) { if (t->state == DONE) continue; if (runnable(t)) c.push_back(t); else if (t->timed) timed.push_back(t); }
  if (c.empty() && !timed.empty()) { auto* t = timed[below(timed.size())]; t->timed_out = true; t->woken = true; if (t->state != COND && t->state != FUTEX && t->state != SEM) t->state = RUN; c.push_back(t); }
  if (c.empty()) die("deadlock", 96);
  thr* n = c[below(c.size())];
  if (w.cfg.strategy % 6 == 3) n = *std::max_element(c.begin(), c.end(), [](thr* a, thr* b) { return a->prio < b->prio; });
  w.st.hash = (w.st.hash ^ static_cast<std::uint64_t>(n->id + 100)) * 1099511628211ULL;
  self = nullptr;
  switch_to(n);
}
void* thread_main(void* p) {
  auto* t = static_cast<thr*>(p);
  while (t->baton.load(std::memory_order_acquire) == 0) raw_futex(&t->baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
  t->baton.store(0, std::memory_order_relaxed);
  {
    guard g;
    if (W->cfg.races) {
      pthread_attr_t at;
      void* sa; std::size_t ss;
      if (pthread_getattr_np(pthread_self(), &at) == 0) {
        pthread_attr_getstack(&at, &sa, &ss);
        pthread_attr_destroy(&at);
        clear_shadow(reinterpret_cast<std::uintptr_t>(sa), ss + 8192);
      }
    }
    self = t;
  }
  void* r = t->fn(t->arg);
  while (!t->dtors.empty()) {
    auto const [f, p] = t->dtors.back();
    t->dtors.pop_back();
    f(p);
  }
  thread_done();
  return r;
}
thr* find(pthread_t id) {
  for (auto it = W->threads.rbegin(); it != W->threads.rend(); ++it) if ((*it)->real == id && !(*it)->joined) return *it;
  return nullptr;
}
void mutex_lock(void* m) {
  auto& x = W->mutexes[m];
  auto const recursive = (static_cast<pthread_mutex_t*>(m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (x.owner == self && recursive) { ++x.depth; return; }
  while (W->mutexes[m].owner != nullptr) block(MUTEX, m);
  auto& y = W->mutexes[m];
  y.owner = self;
  y.depth = 1;
  self->vc.join(y.vc);
}
bool mutex_unlock(void* m) {
  auto it = W->mutexes.find(m);
  if (it == W->mutexes.end() || it->second.owner != self) return false;
  if (--it->second.depth == 0) {
    it->second.owner = nullptr;
    it->second.vc = self->vc;
    tick();
  }
  return true;
}
int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  guard g;
  ++W->st.waits;
  reschedule();
  mutex_unlock(m);
  block(COND, c, timed);
  auto const to = self->timed_out;
  mutex_lock(m);
  return to ? ETIMEDOUT : 0;
}
void wake(void* p, st s, std::size_t n) {
  for (; n; --n) {
    std::vector<thr*> c;
    for (auto* t : W->threads) if (t->state == s && t->on == p && !t->woken) c.push_back(t);
    if (c.empty()) return;
    c[below(c.size())]->woken = true;
  }
}
void* watchdog(void*) {
  std::uint64_t last = 0;
  int same = 0;
  for (;;) {
    timespec ts{5, 0};
    REAL(nanosleep)(&ts, nullptr);
    auto const h = heartbeat.load();
    same = active && h == last ? same + 1 : 0;
    last = h;
    if (same >= 8) { say("VF-STUCK: a thread blocked outside the scheduler\n"); ::_exit(3); }
  }
}
}  // namespace

unsigned std::thread::hardware_concurrency() noexcept { return hc_value; }

namespace vfs {
void set_hc(unsigned n) { hc_value = n; }
bool controlled() { return true; }
void begin(config const& c) {
  static bool once = [] {
    // resolve symbols before any scheduling
    (void)REAL(pthread_create); (void)REAL(pthread_join); (void)REAL(nanosleep); (void)REAL(pthread_mutex_lock); (void)REAL(pthread_mutex_unlock);
    (void)REAL(pthread_detach);
    pthread_t t;
    REAL(pthread_create)(&t, nullptr, watchdog, nullptr);
    return true;
  }();
  (void)once;
  guard g;
  if (W) {
    for (auto& [p, pg] : W->shadow) { for (auto* x : pg->g) delete x; __libc_free(pg); }
    for (auto* t : W->threads) if (t->state == DONE || t->id == 0) delete t;  // a leftover thread still waits on its own
    delete W;
  }
  W = new world{};
  W->cfg = c;
  W->rng = c.seed;
  hc_value = c.hc;
  W->st.hash = 1469598103934665603ULL;
  auto* t = new thr{};
  t->id = 0;
  t->real = pthread_self();
  t->prio = 1000000 + below(1000);
  t->vc.tick(0);
  W->threads.push_back(t);
  W->cur = t;
  auto const span = 10 + below(400);
  for (auto n = 1 + below(5); n; --n) W->change_at.push_back(1 + below(span));
  self = t;
  active = true;
}
stats end() {
  guard g;
  W->st.live = live();
  active = false;
  self = nullptr;
  return W->st;
}
unsigned live() {
  unsigned n = 0;
  for (auto* t : W->threads) if (t->id != 0 && t->state != DONE) ++n;
  return n;
}
int tid() { return self ? self->id : -1; }
void point() { if (on()) sp(); }
void pause() { if (on()) { self->yielded = true; sp(); } }
void log(int what, std::int64_t a, std::int64_t b) {
  guard g;
  if (!the_log) the_log = new std::vector<event>;
  the_log->push_back({what, a, b, tid()});
}
std::vector<event> take_log() {
  guard g;
  std::vector<event> r;
  if (the_log) r.swap(*the_log);
  return r;
}
}  // namespace vfs

extern "C" {
// ---------------------------------------------------------------- memory
void* malloc(std::size_t n) {
  void* p = __libc_malloc(n);
  if (active && self && !in_rt && p && W->cfg.races) { guard g; clear_shadow(reinterpret_cast<std::uintptr_t>(p), n ? n : 1); }
  return p;
}
void* calloc(std::size_t a, std::size_t b) {
  void* p = __libc_calloc(a, b);
  if (active && self && !in_rt && p && W->cfg.races) { guard g; clear_shadow(reinterpret_cast<std::uintptr_t>(p), a * b ? a * b : 1); }
  return p;
}
void* realloc(void* q, std::size_t n) {
  void* p = __libc_realloc(q, n);
  if (active && self && !in_rt && p && W->cfg.races) { guard g; clear_shadow(reinterpret_cast<std::uintptr_t>(p), n ? n : 1); }
  return p;
}
void free(void* p) { __libc_free(p); }

// ---------------------------------------------------------------- pthread
int pthread_create(pthread_t* out, pthread_attr_t const* at, void* (*fn)(void*), void* arg) {
  if (!on()) return REAL(pthread_create)(out, at, fn, arg);
  guard g;
  reschedule();
  auto* t = new thr{};
  t->id = static_cast<int>(W->threads.size());
  t->fn = fn;
  t->arg = arg;
  t->prio = 1000000 + below(1000);
  t->vc = self->vc;
  t->vc.tick(static_cast<unsigned>(t->id));
  int const r = REAL(pthread_create)(&t->real, at, thread_main, t);
  if (r) { delete t; return r; }
  *out = t->real;
  tick();
  W->threads.push_back(t);
  ++W->st.created;
  reschedule();
  return 0;
}
int pthread_join(pthread_t id, void** ret) {
  if (!on()) return REAL(pthread_join)(id, ret);
  {
    guard g;
    reschedule();
    auto* t = find(id);
    if (t) {
      while (t->state != DONE) block(JOIN, t);
      t->joined = true;
      self->vc.join(t->vc);
    }
  }
  return REAL(pthread_join)(id, ret);
}
int pthread_detach(pthread_t id) {
  if (on()) { guard g; if (auto* t = find(id)) t->detached = true; }
  return REAL(pthread_detach)(id);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) return REAL(pthread_mutex_lock)(m);
  guard g;
  ++W->st.locks;
  reschedule();
  mutex_lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return REAL(pthread_mutex_trylock)(m);
  guard g;
  reschedule();
  auto& x = W->mutexes[m];
  if (x.owner && !(x.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
  mutex_lock(m);
  return 0;
}
static int timed_mutex(pthread_mutex_t* m) {
  guard g;
  reschedule();
  if (W->mutexes[m].owner && W->mutexes[m].owner != self) {
    block(MUTEX, m, true);
    if (self->timed_out) return ETIMEDOUT;
  }
  mutex_lock(m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* ts) { return on() ? timed_mutex(m) : REAL(pthread_mutex_timedlock)(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, timespec const* ts) { return on() ? timed_mutex(m) : REAL(pthread_mutex_clocklock)(m, c, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) return REAL(pthread_mutex_unlock)(m);
  {
    guard g;
    if (mutex_unlock(m)) { reschedule(); return 0; }
  }
  return REAL(pthread_mutex_unlock)(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (on()) { guard g; W->mutexes.erase(m); }
  return REAL(pthread_mutex_destroy)(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return on() ? cond_wait(c, m, false) : REAL(pthread_cond_wait)(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) { return on() ? cond_wait(c, m, true) : REAL(pthread_cond_timedwait)(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t) { return on() ? cond_wait(c, m, true) : REAL(pthread_cond_clockwait)(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) return REAL(pthread_cond_signal)(c);
  guard g;
  reschedule();
  wake(c, COND, 1);
  reschedule();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on()) return REAL(pthread_cond_broadcast)(c);
  guard g;
  reschedule();
  wake(c, COND, 100000);
  reschedule();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (on()) return 0;
  return REAL(pthread_cond_destroy)(c);
}
static int rd_lock(pthread_rwlock_t* l, bool timed) {
  guard g;
  reschedule();
  while (W->rws[l].writer) { block(RW_R, l, timed); if (self->timed_out) return ETIMEDOUT; }
  auto& x = W->rws[l];
  x.readers.push_back(self);
  self->vc.join(x.vc);
  return 0;
}
static int wr_lock(pthread_rwlock_t* l, bool timed) {
  guard g;
  reschedule();
  while (W->rws[l].writer || !W->rws[l].readers.empty()) { block(RW_W, l, timed); if (self->timed_out) return ETIMEDOUT; }
  auto& x = W->rws[l];
  x.writer = self;
  self->vc.join(x.vc);
  self->vc.join(x.rvc);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return on() ? rd_lock(l, false) : REAL(pthread_rwlock_rdlock)(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return on() ? wr_lock(l, false) : REAL(pthread_rwlock_wrlock)(l); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, timespec const* t) { return on() ? rd_lock(l, true) : REAL(pthread_rwlock_timedrdlock)(l, t); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, timespec const* t) { return on() ? wr_lock(l, true) : REAL(pthread_rwlock_timedwrlock)(l, t); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, timespec const* t) { return on() ? rd_lock(l, true) : REAL(pthread_rwlock_clockrdlock)(l, c, t); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, timespec const* t) { return on() ? wr_lock(l, true) : REAL(pthread_rwlock_clockwrlock)(l, c, t); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!on()) return REAL(pthread_rwlock_tryrdlock)(l);
  { guard g; if (W->rws[l].writer) return EBUSY; }
  return rd_lock(l, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!on()) return REAL(pthread_rwlock_trywrlock)(l);
  { guard g; auto& x = W->rws[l]; if (x.writer || !x.readers.empty()) return EBUSY; }
  return wr_lock(l, false);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!on()) return REAL(pthread_rwlock_unlock)(l);
  guard g;
  auto& x = W->rws[l];
  if (x.writer == self) { x.writer = nullptr; x.vc = self->vc; }
  else {
    auto it = std::find(x.readers.begin(), x.readers.end(), self);
    if (it != x.readers.end()) x.readers.erase(it);
    x.rvc.join(self->vc);
  }
  tick();
  reschedule();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!on()) return REAL(pthread_once)(o, f);
  {
    guard g;
    reschedule();
    if (*o != 0 && W->onces.find(o) == W->onces.end()) return REAL(pthread_once)(o, f);
    while (W->onces[o].state == 1) block(ONCE, o);
    auto& x = W->onces[o];
    if (x.state == 2) { self->vc.join(x.vc); return 0; }
    x.state = 1;
  }
  try { f(); } catch (...) { guard g; W->onces[o].state = 0; throw; }
  {
    guard g;
    auto& x = W->onces[o];
    x.state = 2;
    x.vc = self->vc;
    tick();
    *o = 2;
    reschedule();
  }
  return 0;
}
int sched_yield() {
  if (!on()) return REAL(sched_yield)();
  vfs::pause();
  return 0;
}
int nanosleep(timespec const* a, timespec* b) {
  if (!on()) return REAL(nanosleep)(a, b);
  vfs::pause();
  return 0;
}
int clock_nanosleep(clockid_t c, int f, timespec const* a, timespec* b) {
  if (!on()) return REAL(clock_nanosleep)(c, f, a, b);
  vfs::pause();
  return 0;
}
int usleep(useconds_t u) {
  if (!on()) return REAL(usleep)(u);
  vfs::pause();
  return 0;
}
int sem_wait(sem_t* s) {
  if (!on()) return REAL(sem_wait)(s);
  guard g;
  reschedule();
  for (;;) {
    if (REAL(sem_trywait)(s) == 0) break;
    block(SEM, s);
  }
  self->vc.join(W->sync[s]);
  return 0;
}
int sem_post(sem_t* s) {
  if (!on()) return REAL(sem_post)(s);
  guard g;
  reschedule();
  W->sync[s].join(self->vc);
  tick();
  REAL(sem_post)(s);
  wake(s, SEM, 1);
  reschedule();
  return 0;
}
int pthread_barrier_init(pthread_barrier_t* b, pthread_barrierattr_t const* a, unsigned n) {
  if (on()) { guard g; W->bars[b] = bar_t{}; W->bars[b].count = n; }
  return REAL(pthread_barrier_init)(b, a, n);
}
int pthread_barrier_wait(pthread_barrier_t* b) {
  if (!on()) return REAL(pthread_barrier_wait)(b);
  guard g;
  reschedule();
  auto& x = W->bars[b];
  x.vc.join(self->vc);
  tick();
  if (++x.arrived == x.count) {
    x.arrived = 0;
    wake(b, BARRIER, 100000);
    self->vc.join(x.vc);
    reschedule();
    return PTHREAD_BARRIER_SERIAL_THREAD;
  }
  block(BARRIER, b);
  self->vc.join(W->bars[b].vc);
  return 0;
}
// std::atomic::wait, std::latch, std::counting_semaphore, std::future
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) {
    guard g;
    auto const op = static_cast<int>(a[1]) & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    auto* p = reinterpret_cast<int*>(a[0]);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      reschedule();
      if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
      block(FUTEX, p, a[3] != 0);
      if (self->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      reschedule();
      wake(p, FUTEX, static_cast<std::size_t>(static_cast<unsigned>(a[2])));
      reschedule();
      return 0;
    }
  }
  long ret;
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall" : "=a"(ret) : "0"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = static_cast<int>(-ret); return -1; }
  return ret;
}
int __cxa_guard_acquire(long long int* gd) {
  auto* b = reinterpret_cast<unsigned char*>(gd);
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) {
    if (on()) { guard g; auto it = W->onces.find(gd); if (it != W->onces.end()) self->vc.join(it->second.vc); }
    return 0;
  }
  if (!on()) { if (b[1]) std::abort(); b[1] = 1; return 1; }
  guard g;
  reschedule();
  while (b[1]) { W->onces[gd].state = 1; block(ONCE, gd); }
  if (*b) { self->vc.join(W->onces[gd].vc); return 0; }
  b[1] = 1;
  W->onces[gd].state = 1;
  return 1;
}
void __cxa_guard_release(long long int* gd) {
  auto* b = reinterpret_cast<unsigned char*>(gd);
  b[1] = 0;
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  if (on()) { guard g; auto& x = W->onces[gd]; x.state = 2; x.vc = self->vc; W->sync[gd] = self->vc; tick(); }
}
void __cxa_guard_abort(long long int* gd) {
  auto* b = reinterpret_cast<unsigned char*>(gd);
  b[1] = 0;
  if (on()) { guard g; W->onces[gd].state = 0; }
}

int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
int __cxa_thread_atexit(void (*f)(void*), void* p, void* dso) {
  if (!(active && self && self->id != 0)) return __cxa_thread_atexit_impl(f, p, dso);
  guard g;
  self->dtors.emplace_back(f, p);
  return 0;
}

// ---------------------------------------------------------------- compiler hooks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(n) \
  void __tsan_read##n(void* p) { mem(p, n, false, false, PC); } \
  void __tsan_write##n(void* p) { mem(p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* p) { mem(p, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { mem(p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* p) { mem(p, n, false, false, PC); } \
  void __tsan_volatile_write##n(void* p) { mem(p, n, true, false, PC); } \
  void __tsan_read_write##n(void* p) { mem(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, std::size_t n) { mem(p, n, false, false, PC); }
void __tsan_write_range(void* p, std::size_t n) { mem(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) mem(p, sizeof(void*), true, false, PC); }
void __tsan_vptr_read(void** p) { mem(p, sizeof(void*), false, false, PC); }

void __tsan_atomic_thread_fence(int mo) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  if (!on()) return;
  pre_atomic();
  guard g;
  if (acq(mo)) self->vc.join(self->acq_pending);
  if (rel(mo)) { self->rel_fence = self->vc; tick(); }
}
void __tsan_atomic_signal_fence(int) {}

#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(T const volatile* p, int mo) { \
    auto* q = const_cast<T*>(p); \
    if (!on()) return __atomic_load_n(q, __ATOMIC_SEQ_CST); \
    pre_atomic(); \
    mem(q, sizeof(T), false, true, PC); \
    guard g; at_load(q, mo); \
    return __atomic_load_n(q, __ATOMIC_SEQ_CST); \
  } \
  void __tsan_atomic##bits##_store(T volatile* p, T v, int mo) { \
    auto* q = const_cast<T*>(p); \
    if (!on()) { __atomic_store_n(q, v, __ATOMIC_SEQ_CST); return; } \
    pre_atomic(); \
    mem(q, sizeof(T), true, true, PC); \
    guard g; at_store(q, mo); \
    __atomic_store_n(q, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##bits##_exchange(T volatile* p, T v, int mo) { \
    auto* q = const_cast<T*>(p); \
    if (!on()) return __atomic_exchange_n(q, v, __ATOMIC_SEQ_CST); \
    pre_atomic(); \
    mem(q, sizeof(T), true, true, PC); \
    guard g; at_rmw(q, mo); \
    return __atomic_exchange_n(q, v, __ATOMIC_SEQ_CST); \
  } \
  static int cas##bits(T volatile* p, T* e, T v, int mo, int fmo, bool weak, void* pc) { \
    auto* q = const_cast<T*>(p); \
    if (!on()) return __atomic_compare_exchange_n(q, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    pre_atomic(); \
    guard g; \
    T const cur = __atomic_load_n(q, __ATOMIC_SEQ_CST); \
    bool const ok = cur == *e && !(weak && below(8) == 0); \
    --in_rt; mem(q, sizeof(T), ok, true, pc); ++in_rt; \
    if (ok) { at_rmw(q, mo); __atomic_store_n(q, v, __ATOMIC_SEQ_CST); return 1; } \
    at_load(q, fmo); \
    *e = cur; \
    return 0; \
  } \
  int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* e, T v, int mo, int fmo) { return cas##bits(p, e, v, mo, fmo, false, PC); } \
  int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* e, T v, int mo, int fmo) { return cas##bits(p, e, v, mo, fmo, true, PC); } \
  T __tsan_atomic##bits##_compare_exchange_val(T volatile* p, T e, T v, int mo, int fmo) { cas##bits(p, &e, v, mo, fmo, false, PC); return e; }
#define FETCH(bits, T, op) \
  T __tsan_atomic##bits##_fetch_##op(T volatile* p, T v, int mo) { \
    auto* q = const_cast<T*>(p); \
    if (!on()) return __atomic_fetch_##op(q, v, __ATOMIC_SEQ_CST); \
    pre_atomic(); \
    mem(q, sizeof(T), true, true, PC); \
    guard g; at_rmw(q, mo); \
    return __atomic_fetch_##op(q, v, __ATOMIC_SEQ_CST); \
  }
#define ALL(bits, T) ATOMIC(bits, T) FETCH(bits, T, add) FETCH(bits, T, sub) FETCH(bits, T, and) FETCH(bits, T, or) FETCH(bits, T, xor) FETCH(bits, T, nand)
ALL(8, std::uint8_t) ALL(16, std::uint16_t) ALL(32, std::uint32_t) ALL(64, std::uint64_t)
}
