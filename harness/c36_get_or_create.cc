#include "gen.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"

namespace {
struct boom {};
struct bad_hash { std::size_t operator()(std::string const& s) const { return s.size() % 3; } };
template <typename Base> struct no_hint : Base {  // maps of other libraries often have no emplace_hint
  using Base::Base;
  template <typename... A> void emplace_hint(A&&...) = delete;
};
struct counted {  // a key that counts its copies and knows when it was moved from
  static inline int copies = 0;
  std::string s;
  explicit counted(std::string x) : s{std::move(x)} {}
  counted(counted const& o) : s{o.s} { ++copies; }
  counted(counted&& o) noexcept : s{std::move(o.s)} { o.s = "moved"; }
  bool operator<(counted const& o) const { return s < o.s; }
};
template <typename K> K mk(int x) { if constexpr (std::is_same_v<K, std::string>) return "key" + std::to_string(x); else return K(x); }

template <typename Map>
void history(vf::ctx& c, unsigned ops, unsigned dom) {
  using K = typename Map::key_type;
  Map m;
  std::map<K, std::string> model;
  std::map<K, std::string*> addr;
  std::uint64_t h = 1;
  for (unsigned q = 0; q < ops; ++q) {
    auto const k = mk<K>(static_cast<int>(c.r.below(dom)));
    bool const present = model.count(k) != 0;
    auto const how = c.r.below(10);
    h = vf::hcomb(h, how + 16 * (present ? 1 : 0));
    if (how == 0) { m.erase(k); model.erase(k); addr.erase(k); continue; }
    auto const fresh = gen::word(c.r, 40);
    unsigned calls = 0;
    if (how == 1) {  // throwing creator
      bool threw = false;
      try { utl::get_or_create(m, k, [&]() -> std::string { ++calls; throw boom{}; }); } catch (boom const&) { threw = true; }
      CHECK_EQ(!present, threw, "throw");
      CHECK_EQ(present ? 0u : 1u, calls, "throw-calls");
      CHECK_EQ(model.size(), m.size(), "throw-map-changed");
      if (!present) CHECK(m.find(k) == m.end(), "throw-key-created");
      c.count("throws", threw);
    } else if (how == 2) {  // creator that creates other entries meanwhile
      auto const k2 = mk<K>(static_cast<int>(c.r.below(dom)));
      if (!present && !(k2 == k)) {
        bool const p2 = model.count(k2) != 0;
        auto& v = utl::get_or_create(m, k, [&] { ++calls; utl::get_or_create(m, k2, [&] { return std::string{"inner"}; }); return fresh; });
        if (!p2) model[k2] = "inner";
        model[k] = fresh;
        CHECK_EQ(fresh, v, "nested-value");
        CHECK(calls == 1, "nested-calls");
        c.count("nested");
      }
    } else {
      auto kk = k;
      std::string& v = how == 3 ? utl::get_or_create(m, std::move(kk), [&] { ++calls; return fresh; })
                                : utl::get_or_create(m, k, [&] { ++calls; return fresh; });
      CHECK_EQ(present ? 0u : 1u, calls, "calls", "key present: ", present);
      if (!present) model[k] = fresh;
      CHECK_EQ(model[k], v, "value");
      CHECK(&v == &m.find(k)->second, "reference");
      if (c.r.chance(1, 4)) { v += "*"; model[k] = v; }  // the reference is the stored value
      c.count("lookups");
    }
    CHECK_EQ(model.size(), m.size(), "size");
  }
  for (auto const& [k, v] : model) { auto it = m.find(k); CHECK(it != m.end() && it->second == v, "final"); }
  c.distinct(h);
}

template <typename Map>
void index_history(vf::ctx& c, unsigned ops, unsigned dom) {
  using K = typename Map::key_type;
  Map m;
  std::map<K, std::size_t> model;
  std::uint64_t h = 2;
  for (unsigned q = 0; q < ops; ++q) {
    auto const k = mk<K>(static_cast<int>(c.r.below(dom)));
    auto const want = model.emplace(k, model.size()).first->second;
    CHECK_EQ(want, utl::get_or_create_index(m, k), "index", "step ", q);
    CHECK_EQ(model.size(), m.size(), "index-size", "step ", q);
    h = vf::hcomb(h, want);
    c.count("indices");
  }
  for (auto const& [k, v] : model) CHECK_EQ(v, static_cast<std::size_t>(m.at(k)), "index-final");
  c.distinct(h);
}
}  // namespace

SCENARIO(history, 1500, 50000) {
  auto const ops = 1 + static_cast<unsigned>(c.r.below(120)), dom = 1 + static_cast<unsigned>(c.r.below(40));
  if (c.want_sample()) c.sample(vf::cat("ops=", ops, " keys=", dom));
  switch (c.r.below(7)) {
#ifndef VF_LEAN
    case 5: history<no_hint<std::map<std::string, std::string>>>(c, ops, dom); c.count("maps-without-hint"); break;
    case 6: history<no_hint<std::unordered_map<int, std::string>>>(c, ops, dom); c.count("maps-without-hint"); break;
#endif
    case 0: history<std::map<int, std::string>>(c, ops, dom); break;
    case 1: history<std::map<std::string, std::string>>(c, ops, dom); break;
    case 2: history<std::unordered_map<int, std::string>>(c, ops, dom); break;
    case 3: history<std::unordered_map<std::string, std::string, bad_hash>>(c, ops, dom); break;
    default: history<std::map<std::string, std::string, std::greater<std::string>>>(c, ops, dom); break;
  }
}
#ifndef VF_LEAN
// keys given as another type, mapped values that cannot be copied, values made from what the function returns
SCENARIO(other_types, 800, 20000) {
  auto const go = [&](auto& m, auto& p) {
    std::map<std::string, std::string> model;
    std::map<std::string, int> ints;
    for (auto q = 1 + c.r.below(40); q; --q) {
      auto const key = gen::word(c.r, c.r.chance(1, 2) ? 3 : 30);
      auto const fresh = gen::word(c.r, 30);
      unsigned calls = 0;
      bool const present = model.count(key) != 0;
      auto const make = [&]() -> char const* { ++calls; return fresh.c_str(); };
      auto const& v = c.r.chance(1, 2) ? utl::get_or_create(m, key.c_str(), make) : utl::get_or_create(m, std::string{key}, make);
      if (!present) model[key] = fresh;
      CHECK_EQ(model[key], v, "other/value");
      CHECK_EQ(present ? 0U : 1U, calls, "other/calls");
      CHECK(&v == &m.find(key)->second && m.size() == model.size(), "other/reference");
      bool const had = ints.count(key) != 0;
      auto const n = static_cast<int>(c.r.below(1000));
      auto& u = utl::get_or_create(p, key, [&] { return std::make_unique<int>(n); });
      if (!had) ints[key] = n;
      CHECK(u != nullptr && *u == ints[key] && &u == &p.find(key)->second, "other/move-only");
      if (c.r.chance(1, 4)) { u = std::make_unique<int>(-1); ints[key] = -1; }
      c.count("other-type-lookups");
    }
    c.distinct(vf::hcomb(model.size(), ints.size() * 100 + c.idx % 4));
  };
  switch (c.idx % 4) {
    case 0: { std::map<std::string, std::string> m; std::map<std::string, std::unique_ptr<int>> p; go(m, p); break; }
    case 1: { std::unordered_map<std::string, std::string> m; std::unordered_map<std::string, std::unique_ptr<int>> p; go(m, p); break; }
    case 2: { no_hint<std::map<std::string, std::string>> m; no_hint<std::map<std::string, std::unique_ptr<int>>> p; go(m, p); break; }
    default: { no_hint<std::unordered_map<std::string, std::string>> m; no_hint<std::unordered_map<std::string, std::unique_ptr<int>>> p; go(m, p); break; }
  }
  std::map<counted, int> m;
  counted const k{"a key that does not fit into a small string"};
  counted::copies = 0;
  counted again{k.s};
  utl::get_or_create(m, k, [] { return 1; });
  CHECK(k.s == again.s, "other/key-changed");
  CHECK_EQ(1, utl::get_or_create(m, again, [] { return 2; }), "other/same");
  CHECK_EQ(1, utl::get_or_create(m, std::move(again), [] { return 3; }), "other/same-moved");
  CHECK(m.size() == 1 && m.begin()->first.s == k.s, "other/stored-key-changed");
}
#endif
SCENARIO(indices, 1500, 50000) {
  auto const ops = 1 + static_cast<unsigned>(c.r.below(200)), dom = 1 + static_cast<unsigned>(c.r.below(100));
  switch (c.r.below(6)) {
#ifndef VF_LEAN
    case 5: index_history<no_hint<std::map<std::string, std::size_t>>>(c, ops, dom); break;
#endif
    case 0: index_history<std::map<int, std::size_t>>(c, ops, dom); break;
    case 1: index_history<std::map<std::string, std::size_t>>(c, ops, dom); break;
    case 2: index_history<std::unordered_map<int, std::size_t>>(c, ops, dom); break;
    case 3: index_history<std::unordered_map<std::string, std::uint32_t, bad_hash>>(c, ops, dom); break;
    default: index_history<std::map<std::string, unsigned, std::greater<std::string>>>(c, ops, dom); break;
  }
}
SCENARIO(large, 8, 32) {
  index_history<std::unordered_map<int, std::size_t>>(c, 20000, c.r.pick({200u, 256u, 70000u}));
  index_history<std::map<int, std::uint32_t>>(c, 20000, c.r.pick({257u, 65537u}));
}
// memoised recursion: values are created through nested calls
SCENARIO(recursive, 100, 2000) {
  std::map<int, unsigned long long> m;
  unsigned calls = 0;
  std::function<unsigned long long(int)> fib = [&](int n) -> unsigned long long {
    return utl::get_or_create(m, n, [&]() -> unsigned long long { ++calls; return n < 2 ? static_cast<unsigned long long>(n) : fib(n - 1) + fib(n - 2); });
  };
  int const n = static_cast<int>(c.r.below(80));
  auto const r = fib(n);
  unsigned long long a = 0, b = 1;
  for (int i = 0; i < n; ++i) { auto t = a + b; a = b; b = t; }
  CHECK_EQ(a, r, "fib", n);
  CHECK_EQ(m.size(), static_cast<std::size_t>(calls), "fib-calls", n);
}
SCENARIO(many_keys, 4, 24) {  // more distinct keys than 16 bit indices
  std::unordered_map<unsigned, std::size_t> m;
  auto const n = c.r.pick({65536U, 65537U, 70000U, 100000U});
  for (unsigned i = 0; i < n; ++i) CHECK_EQ(static_cast<std::size_t>(i), utl::get_or_create_index(m, i * 2654435761U), "many-index", i);
  for (unsigned i = 0; i < n; i += 1 + static_cast<unsigned>(c.r.below(5))) CHECK_EQ(static_cast<std::size_t>(i), utl::get_or_create_index(m, i * 2654435761U), "many-index-again", i);
  CHECK_EQ(static_cast<std::size_t>(n), m.size(), "many-size");
  c.count("indices", n);
}
