// Verification harness framework: scenarios, per-case deterministic RNG,
// monitors that record violations, coverage counters, watchdogs.
// Nothing in here depends on utl.
#pragma once

#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <deque>
#include <exception>
#include <forward_list>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf {

inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}
inline std::uint64_t hcomb(std::uint64_t a, std::uint64_t b) {
  return mix(a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2)));
}
inline std::uint64_t hstr(std::string_view s) {
  std::uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h = (h ^ c) * 1099511628211ULL; }
  return mix(h ^ s.size());
}

struct rng {
  std::uint64_t s;
  explicit rng(std::uint64_t seed) : s{seed} {}
  std::uint64_t next() { return s = s + 0x9E3779B97F4A7C15ULL, mixo(s); }
  static std::uint64_t mixo(std::uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  // [0, n)
  std::uint64_t below(std::uint64_t n) { return n <= 1 ? 0 : next() % n; }
  // [lo, hi]
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    return lo + static_cast<std::int64_t>(
                    below(static_cast<std::uint64_t>(hi - lo) + 1));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
  template <typename C>
  auto const& pick(C const& c) {
    auto it = std::begin(c);
    std::advance(it, static_cast<std::ptrdiff_t>(below(std::size(c))));
    return *it;
  }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  // sizes concentrated on small values, powers of two and their neighbours
  std::size_t size(std::size_t max) {
    std::size_t r = 0;
    switch (below(8)) {
      case 0: case 1: case 2: r = below(6); break;
      case 3: case 4: r = below(20); break;
      case 5: r = below(70); break;
      case 6: {
        auto const p = std::size_t{1} << below(18);
        r = p + below(3);
        r = r ? r - 1 : 0;
        break;
      }
      default: r = below(max + 1); break;
    }
    return std::min(r, max);
  }
};

struct stop_case {};  // thrown by CHECK after recording a violation

inline std::string esc(std::string_view s, std::size_t max = 600) {
  std::string o;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (i >= max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') { o += "\\n"; }
    else if (c == '\r') { o += "\\r"; }
    else if (c == '\t') { o += "\\t"; }
    else if (c < 0x20 || c >= 0x7f) {
      char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b;
    } else { o += static_cast<char>(c); }
  }
  return o;
}

template <typename T>
std::string str(T const& v);

template <typename T>
concept streamable = requires(std::ostream& o, T const& t) { o << t; };
template <typename T>
concept rangeish = requires(T const& t) { t.begin(); t.end(); };

template <typename T>
std::string str(T const& v) {
  if constexpr (std::is_convertible_v<T const&, std::string_view>) {
    return "'" + esc(std::string_view(v)) + "'";
  } else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> ||
                       std::is_same_v<T, unsigned char>) {
    return std::to_string(static_cast<int>(v));
  } else if constexpr (rangeish<T>) {
    std::string o = "[";
    std::size_t n = 0;
    for (auto const& x : v) {
      if (n) o += ",";
      if (n++ >= 40) { o += "..."; break; }
      if constexpr (requires { x.first; x.second; }) {
        o += str(x.first) + ":" + str(x.second);
      } else { o += str(x); }
    }
    return o + "]";
  } else if constexpr (streamable<T>) {
    std::ostringstream s;
    s.precision(17);
    s << v;
    return s.str();
  } else if constexpr (requires { v.first; v.second; }) {
    return "(" + str(v.first) + "," + str(v.second) + ")";
  } else if constexpr (requires { v.has_value(); *v; }) {
    return v.has_value() ? "some(" + str(*v) + ")" : std::string{"none"};
  } else {
    return "<value>";
  }
}
template <typename... T>
std::string cat(T const&... t) {
  std::string o;
  auto one = [&](auto const& x) {
    using X = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<X, std::string>) o += esc(x);
    else if constexpr (std::is_convertible_v<X, char const*>) o += x;
    else o += str(x);
  };
  (one(t), ...);
  return o;
}

struct ctx;
struct scenario {
  char const* name;
  std::uint64_t quick, thorough;  // number of cases
  void (*fn)(ctx&);
};
inline std::vector<scenario>& scenarios() {
  static std::vector<scenario> s;
  return s;
}
struct registrar {
  registrar(char const* n, std::uint64_t q, std::uint64_t t, void (*f)(ctx&)) {
    scenarios().push_back({n, q, t, f});
  }
};

struct status_t {
  char scenario[96];
  std::uint64_t idx;
  std::uint64_t running;
  char note[512];
};

struct global {
  std::uint64_t seed = 1;
  bool thorough = false;
  unsigned shard = 0, shards = 1;
  FILE* out = nullptr;
  std::recursive_mutex m;
  std::map<std::string, std::uint64_t> counters;
  std::map<std::string, std::uint64_t> evals;
  std::unordered_set<std::uint64_t> hashes;
  std::map<std::string, std::vector<std::string>> samples;
  std::uint64_t violations = 0;
  std::map<std::string, int> per_key;
  status_t* st = nullptr;
  unsigned cpu_limit_s = 20;
};
inline global& g() {
  static global* x = new global;
  return *x;
}

inline void note(std::string const& s) {
  if (g().st) {
    std::snprintf(g().st->note, sizeof g().st->note, "%s", esc(s, 480).c_str());
  }
}

struct ctx {
  char const* scen;
  std::uint64_t idx;   // case index
  rng r;
  bool failed = false;

  // record a violation; does not throw
  void violate(std::string const& key, std::string const& detail) {
    std::lock_guard<std::recursive_mutex> l{g().m};
    failed = true;
    ++g().violations;
    if (++g().per_key[std::string{scen} + "/" + key] <= 2) {
      std::fprintf(g().out,
                   "{\"t\":\"violation\",\"scenario\":\"%s\",\"idx\":%llu,"
                   "\"key\":\"%s\",\"detail\":\"%s\"}\n",
                   scen, static_cast<unsigned long long>(idx),
                   esc(key).c_str(), esc(detail, 1500).c_str());
      std::fflush(g().out);
    }
  }
  void count(char const* name, std::uint64_t n = 1) {
    std::lock_guard<std::recursive_mutex> l{g().m};
    g().counters[name] += n;
  }
  // a distinct non-trivial case
  void distinct(std::uint64_t h) {
    std::lock_guard<std::recursive_mutex> l{g().m};
    g().hashes.insert(hcomb(hstr(scen), h));
  }
  void sample(std::string const& s, std::size_t max = 2) {
    std::lock_guard<std::recursive_mutex> l{g().m};
    auto& v = g().samples[scen];
    if (v.size() < max) { v.push_back(esc(s, 300)); }
  }
  bool want_sample(std::size_t max = 2) { return g().samples[scen].size() < max; }
  // progress of a multi-evaluation case
  void evals(std::uint64_t n) { g().evals[scen] += n; }
  bool thorough() const { return g().thorough; }
};

[[noreturn]] inline void die_with(ctx& c, std::string const& k, std::string const& d) {
  c.violate(k, d);
  throw stop_case{};
}

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define SCENARIO(name, quick, thorough)                                     \
  static void VF_CAT(scen_, name)(vf::ctx & c);                             \
  static vf::registrar VF_CAT(reg_, name){#name, quick, thorough,           \
                                          &VF_CAT(scen_, name)};            \
  static void VF_CAT(scen_, name)([[maybe_unused]] vf::ctx & c)

// compares what can be compared: a result type that changed (say, from a vector
// of one integer type to one of another) is judged by its elements
template <typename A, typename B>
bool eq(A&& a, B&& b) {
  if constexpr (requires { static_cast<bool>(a == b); }) {
    return static_cast<bool>(a == b);
  } else if constexpr (requires { a.begin() != a.end(); b.begin() != b.end(); }) {
    auto i = a.begin();
    auto j = b.begin();
    for (; i != a.end() && j != b.end(); ++i, ++j) {
      if (!eq(*i, *j)) return false;
    }
    return !(i != a.end()) && !(j != b.end());
  } else {
    return false;
  }
}

// key: short stable string; remaining args: detail
#define CHECK(cond, key, ...)                                                \
  do {                                                                       \
    if (!(cond)) {                                                           \
      vf::die_with(c, key, vf::cat("" __VA_OPT__(, ) __VA_ARGS__));          \
    }                                                                        \
  } while (0)
#define CHECKN(cond, key, ...)                                               \
  do {                                                                       \
    if (!(cond)) {                                                           \
      c.violate(key, vf::cat("" __VA_OPT__(, ) __VA_ARGS__));                \
    }                                                                        \
  } while (0)
#define CHECK_EQ(expected, actual, key, ...)                                 \
  do {                                                                       \
    auto&& vf_e = (expected);                                                \
    auto&& vf_a = (actual);                                                  \
    if (!vf::eq(vf_e, vf_a)) {                                               \
      vf::die_with(c, key, vf::cat("expected ", vf_e, " got ", vf_a,         \
                                   "; " __VA_OPT__(, ) __VA_ARGS__));        \
    }                                                                        \
  } while (0)

inline void on_vtalrm(int) {
  // CPU-time watchdog: the current case used far more CPU than any case needs
  static char const msg[] = "VF-CPU-LIMIT\n";
  [[maybe_unused]] auto r = ::write(2, msg, sizeof msg - 1);
  ::_exit(97);
}

inline void dump() {
  auto& G = g();
  for (auto const& [k, v] : G.counters) {
    std::fprintf(G.out, "{\"t\":\"counter\",\"k\":\"%s\",\"v\":%llu}\n",
                 esc(k).c_str(), static_cast<unsigned long long>(v));
  }
  for (auto const& [k, v] : G.evals) {
    std::fprintf(G.out, "{\"t\":\"evals\",\"k\":\"%s\",\"v\":%llu}\n", k.c_str(),
                 static_cast<unsigned long long>(v));
  }
  for (auto const& [k, v] : G.samples) {
    for (auto const& s : v) {
      std::fprintf(G.out, "{\"t\":\"sample\",\"k\":\"%s\",\"v\":\"%s\"}\n",
                   k.c_str(), esc(s, 900).c_str());
    }
  }
  // hashes
  std::fprintf(G.out, "{\"t\":\"hashes\",\"v\":[");
  bool first = true;
  std::size_t n = 0;
  for (auto h : G.hashes) {
    if (n++ == 400000) break;
    std::fprintf(G.out, "%s%llu", first ? "" : ",",
                 static_cast<unsigned long long>(h));
    first = false;
  }
  std::fprintf(G.out, "]}\n{\"t\":\"end\"}\n");
  std::fflush(G.out);
}

inline void run_case(scenario const& s, std::uint64_t i) {
  auto& G = g();
  std::snprintf(G.st->scenario, sizeof G.st->scenario, "%s", s.name);
  G.st->idx = i;
  G.st->note[0] = 0;
  G.st->running = 1;
  itimerval tv{};
  tv.it_value.tv_sec = G.cpu_limit_s;
  setitimer(ITIMER_PROF, &tv, nullptr);
  ctx c{s.name, i, rng{hcomb(hcomb(mix(G.seed), hstr(s.name)), i)}};
  auto const body = [&]() noexcept {
    try {
      s.fn(c);
    } catch (stop_case const&) {
    } catch (std::exception const& e) {
      c.violate("unexpected-exception", cat("std::exception: ", e.what()));
    } catch (...) {
      c.violate("unexpected-exception", "unknown exception");
    }
  };
  // what a call computes does not depend on where it is made: some cases run
  // while the stack is unwound, some inside an exception handler, some with a
  // left-over errno
  auto const place = mix(hcomb(hcomb(mix(G.seed + 77), hstr(s.name)), i)) % 16;
  errno = place & 1 ? ERANGE : 0;
  if (place == 0 || place == 1) {
    struct at_exit {
      decltype(body)& b;
      ~at_exit() { b(); }
    };
    try {
      at_exit const a{body};
      throw 0;
    } catch (int) {}
    G.counters["run-during-unwinding"] += 1;
  } else if (place == 2) {
    try {
      throw 0;
    } catch (int) {
      body();
    }
    G.counters["run-inside-a-handler"] += 1;
  } else {
    body();
  }
  G.evals[s.name] += 1;
  G.st->running = 0;
}

// Runs a case in a process of its own, forked off before anything under test
// was used in this one: what happens on first use happens there again. Its
// counters and hashes come back through a pipe; an abnormal end ends this
// process the same way.
template <typename F>
void in_fresh_process(ctx& c, F&& f) {
  auto& G = g();
  int p[2];
  std::fflush(nullptr);
  if (::pipe(p) != 0) return;
  auto const pid = ::fork();
  if (pid < 0) { ::close(p[0]); ::close(p[1]); return; }
  if (pid == 0) {
    ::close(p[0]);
    itimerval tv{};
    tv.it_value.tv_sec = G.cpu_limit_s;
    setitimer(ITIMER_PROF, &tv, nullptr);
    G.counters.clear();
    G.hashes.clear();
    auto const before = G.violations;
    try {
      f();
    } catch (stop_case const&) {
    } catch (std::exception const& e) {
      c.violate("unexpected-exception", cat("std::exception: ", e.what()));
    } catch (...) {
      c.violate("unexpected-exception", "unknown exception");
    }
    std::fflush(G.out);
    std::string s;
    for (auto const& [k, v] : G.counters) s += "c " + k + " " + std::to_string(v) + "\n";
    for (auto const h : G.hashes) s += "h x " + std::to_string(h) + "\n";
    s += "v x " + std::to_string(G.violations - before) + "\n";
    for (std::size_t o = 0; o < s.size();) {
      auto const n = ::write(p[1], s.data() + o, s.size() - o);
      if (n <= 0) break;
      o += static_cast<std::size_t>(n);
    }
    ::_exit(0);
  }
  ::close(p[1]);
  std::string s;
  char b[4096];
  for (;;) {
    auto const n = ::read(p[0], b, sizeof b);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) break;
    s.append(b, static_cast<std::size_t>(n));
  }
  ::close(p[0]);
  int st = 0;
  while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) { std::signal(WTERMSIG(st), SIG_DFL); ::raise(WTERMSIG(st)); ::_exit(98); }
  if (WEXITSTATUS(st) != 0) ::_exit(WEXITSTATUS(st));
  std::istringstream in{s};
  std::string t, k;
  std::uint64_t v = 0;
  while (in >> t >> k >> v) {
    if (t == "c") G.counters[k] += v;
    else if (t == "h") G.hashes.insert(v);
    else if (v) { G.violations += v; c.failed = true; }
  }
  c.count("fresh-processes");
}

inline int run(int argc, char** argv) {
  auto& G = g();
  std::string only, outp = "/dev/stdout", statusp;
  long long only_idx = -1;
  double scale = 1.0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string{argv[++i]}; };
    if (a == "--seed") G.seed = std::stoull(val());
    else if (a == "--tier") G.thorough = val() == "thorough";
    else if (a == "--shard") { auto v = val(); G.shard = std::stoul(v); G.shards = std::stoul(v.substr(v.find('/') + 1)); }
    else if (a == "--out") outp = val();
    else if (a == "--status") statusp = val();
    else if (a == "--only") only = val();
    else if (a == "--case") only_idx = std::stoll(val());
    else if (a == "--scale") scale = std::stod(val());
    else if (a == "--cpu") G.cpu_limit_s = static_cast<unsigned>(std::stoul(val()));
    else if (a == "--list") {
      for (auto const& s : scenarios()) std::printf("%s %llu %llu\n", s.name, (unsigned long long)s.quick, (unsigned long long)s.thorough);
      return 0;
    }
  }
  G.out = std::fopen(outp.c_str(), "w");
  if (!G.out) return 3;
  if (statusp.empty()) {
    G.st = new status_t{};
  } else {
    int fd = ::open(statusp.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0 || ::ftruncate(fd, sizeof(status_t)) != 0) return 3;
    G.st = static_cast<status_t*>(::mmap(nullptr, sizeof(status_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (G.st == MAP_FAILED) return 3;
  }
  std::signal(SIGPROF, on_vtalrm);
  for (auto const& s : scenarios()) {
    if (!only.empty() && only != s.name) continue;
    auto n = static_cast<std::uint64_t>(static_cast<double>(G.thorough ? s.thorough : s.quick) * scale);
    auto const before = G.violations;
    for (std::uint64_t i = G.shard; i < n; i += G.shards) {
      if (only_idx >= 0) { if (i != static_cast<std::uint64_t>(only_idx)) { i = static_cast<std::uint64_t>(only_idx); } }
      run_case(s, i);
      if (only_idx >= 0) break;
      if (G.violations - before >= 5) break;
    }
  }
  itimerval tv{};
  setitimer(ITIMER_PROF, &tv, nullptr);
  dump();
  return G.violations ? 1 : 0;
}

}  // namespace vf

#ifndef VF_NO_MAIN
int main(int argc, char** argv) {
  // libstdc++ caches the fill character of a stream on first use without
  // synchronisation: that cache is not the library's business
  for (std::ios* const o : {static_cast<std::ios*>(&std::cout), static_cast<std::ios*>(&std::clog), static_cast<std::ios*>(&std::cerr)}) (void)o->fill();
  int const rc = vf::run(argc, argv);
  std::fflush(nullptr);
  ::_exit(rc);  // no static destructors: leak accounting is done per case
}
#endif
