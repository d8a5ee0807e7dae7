// C43: programs that use the library on their own objects and on shared
// constant inputs (also for C45); each is a deterministic function of its seed.
#pragma once
#include "vf.h"

namespace c43 {
struct shared_t {  // constant while the threads run
  std::string text, csv, path;
  std::vector<int> a, b, raw;
  std::vector<std::string> words;
  std::map<std::string, int> dict;
};
// C45 runs other programs from within whatever the library calls
inline thread_local void (*inside)() = nullptr;
inline void here() { if (inside) inside(); }
struct hash {
  std::uint64_t h = 1;
  void add(std::uint64_t x) { here(); mix(x); }
  void mix(std::uint64_t x) { h = h * 1099511628211ULL ^ (x + (h >> 29)); }
  void add(std::string_view s) { here(); for (unsigned char ch : s) mix(static_cast<std::uint64_t>(ch)); mix(s.size()); }
};
struct prog {
  char const* name;
  void (*fn)(vf::rng&, shared_t const&, hash&);
};
extern prog const parsers[];
extern std::size_t const n_parsers;
extern prog const algorithms[];
extern std::size_t const n_algorithms;
}  // namespace c43
