// Shared generators
#pragma once
#include "vf.h"

#include <ctime>
#include <sys/mman.h>

// every comparison operator exists on the element types, so that code which uses
// another one than today's still compiles and is judged by what it does: the
// order is by key only, equality is identity unless a harness says otherwise
#ifdef GEN_EQ_BY_KEY
#define GEN_EQ(T) friend bool operator==(T const& a, T const& b) { return a.key == b.key; }
#else
#define GEN_EQ(T) friend bool operator==(T const& a, T const& b) { return a.key == b.key && a.id == b.id; }
#endif
#define GEN_OPS(T)                                                              \
  GEN_EQ(T)                                                                     \
  friend bool operator>(T const& a, T const& b) { return a.key > b.key; }       \
  friend bool operator<=(T const& a, T const& b) { return a.key <= b.key; }     \
  friend bool operator>=(T const& a, T const& b) { return a.key >= b.key; }

namespace gen {

struct rec {  // compared by key only; id is identity
  int key;
  int id;
  friend bool operator<(rec const& a, rec const& b) { return a.key < b.key; }
  GEN_OPS(rec)
  friend std::ostream& operator<<(std::ostream& o, rec const& r) {
    return o << r.key << "#" << r.id;
  }
};
struct recb {
  int pad;
  int key;
  int id;
  friend bool operator<(recb const& a, recb const& b) { return a.key < b.key; }
  GEN_OPS(recb)
  friend std::ostream& operator<<(std::ostream& o, recb const& r) {
    return o << r.key << "#" << r.id;
  }
};
inline bool operator<(rec const& a, recb const& b) { return a.key < b.key; }
inline bool operator<(recb const& a, rec const& b) { return a.key < b.key; }
inline bool operator>(rec const& a, recb const& b) { return a.key > b.key; }
inline bool operator>(recb const& a, rec const& b) { return a.key > b.key; }
inline bool operator<=(rec const& a, recb const& b) { return a.key <= b.key; }
inline bool operator<=(recb const& a, rec const& b) { return a.key <= b.key; }
inline bool operator>=(rec const& a, recb const& b) { return a.key >= b.key; }
inline bool operator>=(recb const& a, rec const& b) { return a.key >= b.key; }
inline bool operator==(rec const& a, recb const& b) { return a.key == b.key && a.id == b.id; }

// n keys with a distribution that yields duplicates, gaps and extremes
inline std::vector<int> keys(vf::rng& r, std::size_t n) {
  std::vector<int> k;
  k.reserve(n);
  auto const mode = r.below(7);
  auto const dom = mode == 0   ? 1
                   : mode == 1 ? 2
                   : mode == 2 ? 5
                   : mode == 3 ? 1 + r.below(n + 2)
                   : mode == 4 ? 1 + 3 * n
                               : 1000000;
  for (std::size_t i = 0; i < n; ++i) {
    if (mode == 6) {
      k.push_back(static_cast<int>(
          r.pick({std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 0,
                  -1, 1, std::numeric_limits<int>::min() + 1,
                  std::numeric_limits<int>::max() - 1})));
    } else {
      k.push_back(static_cast<int>(r.range(-static_cast<std::int64_t>(dom) / 2,
                                           static_cast<std::int64_t>(dom) / 2)));
    }
  }
  if (mode == 5 && n > 1) {  // long runs
    int v = k[0];
    for (auto& x : k) {
      if (r.chance(1, 10)) v = x;
      x = v;
    }
  }
  return k;
}
inline std::vector<int> sorted_keys(vf::rng& r, std::size_t n) {
  auto k = keys(r, n);
  std::sort(k.begin(), k.end());
  return k;
}
inline std::size_t small_size(vf::rng& r) { return r.size(90); }

inline std::string word(vf::rng& r, std::size_t maxlen = 12) {
  std::string s;
  auto n = r.below(maxlen + 1);
  for (std::size_t i = 0; i < n; ++i) s += static_cast<char>('a' + r.below(4));
  return s;
}
// bytes with emphasis on the given interesting characters
inline std::string bytes(vf::rng& r, std::size_t n, std::string_view hot, unsigned hot_pct = 70) {
  std::string s;
  s.reserve(n);
  for (std::size_t i = 0; i < n; ++i) {
    if (!hot.empty() && r.below(100) < hot_pct) s += hot[r.below(hot.size())];
    else s += static_cast<char>(r.below(256));
  }
  return s;
}
// exhaustive: the idx-th string over an alphabet (shortlex)
inline std::string nth_string(std::uint64_t idx, std::string_view alpha) {
  std::string s;
  auto const k = alpha.size();
  std::uint64_t len = 0, cnt = 1;
  while (idx >= cnt) { idx -= cnt; cnt *= k; ++len; }
  for (std::uint64_t i = 0; i < len; ++i) { s += alpha[idx % k]; idx /= k; }
  return s;
}
inline std::uint64_t count_upto(std::uint64_t k, unsigned len) {
  std::uint64_t n = 0, c = 1;
  for (unsigned i = 0; i <= len; ++i) { n += c; c *= k; }
  return n;
}

// A copy of a text in an exactly sized heap block, so that any read outside
// the text hits an ASan red zone. NUL terminator is absent on purpose.
struct tight {
  explicit tight(std::string_view s) : n{s.size()}, p{n ? static_cast<char*>(std::malloc(n)) : nullptr} {
    if (n) std::memcpy(p, s.data(), n);
  }
  ~tight() { std::free(p); }
  tight(tight const&) = delete;
  tight& operator=(tight const&) = delete;
  bool inside(char const* b, std::size_t len) const {
    return len == 0 || (b >= p && b + len <= p + n);
  }
  std::size_t n;
  char* p;
};

// A text beyond 4 GiB of address space that costs almost no memory: NUL bytes
// (the shared zero page) except where a byte was put.
struct giant {
  explicit giant(std::size_t size) : n{size} {
    auto* const m = ::mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    p = m == MAP_FAILED ? nullptr : static_cast<char*>(m);
    if (p) ::madvise(p, n, MADV_NOHUGEPAGE);  // a written byte costs one small page
  }
  ~giant() { if (p) ::munmap(p, n); }
  giant(giant const&) = delete;
  giant& operator=(giant const&) = delete;
  std::size_t n;
  char* p;
};
// does f get through 64 MiB fast enough to be given 64 times as much?
template <typename F> bool quick(F&& f) {
  for (int i = 0; i < 2; ++i) {
    timespec a{}, b{};
    ::clock_gettime(CLOCK_THREAD_CPUTIME_ID, &a);
    f();
    ::clock_gettime(CLOCK_THREAD_CPUTIME_ID, &b);
    if (i == 1) return static_cast<double>(b.tv_sec - a.tv_sec) + 1e-9 * static_cast<double>(b.tv_nsec - a.tv_nsec) < 0.12;
  }
  return false;
}
}  // namespace gen
