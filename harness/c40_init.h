// storage with random null pattern for the generated init_from cases
#pragma once
#include "vf.h"
namespace {
#ifdef VF_LEAN  // the code under test may have come to copy the source: legal for users whose structs can be copied
template <typename X> using uniq = std::shared_ptr<X>;
#else
template <typename X> using uniq = std::unique_ptr<X>;
#endif
template <int I> struct T { int v = I; int pad[I % 3 + 1] = {}; };

struct store {
  explicit store(vf::ctx& c) : c{c}, null_pct{c.r.pick({0u, 0u, 0u, 5u, 20u, 60u})} {}
  bool null() { bool const n = c.r.below(100) < null_pct; pattern = vf::hcomb(pattern, n); return n; }
  template <int I> T<I> direct() { return {}; }
  template <int I> T<I>* ptr() {
    if (null()) return nullptr;
    auto p = std::make_shared<T<I>>();
    keep.push_back(p);
    return p.get();
  }
  template <int I> uniq<T<I>> uptr() { return null() ? nullptr : uniq<T<I>>{new T<I>{}}; }
  template <int I> std::shared_ptr<T<I>> sptr() { return null() ? nullptr : std::make_shared<T<I>>(); }
  vf::ctx& c;
  unsigned null_pct;
  std::uint64_t pattern = 0;
  std::vector<std::shared_ptr<void>> keep;
};
template <typename... P> std::vector<std::pair<void const*, int>> snapshot(P const*... p) { return {{p, p ? p->v : -1}...}; }
}  // namespace
