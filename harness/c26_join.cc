#include "gen.h"
#include "utl/join.h"

using gen::rec;
using gen::recb;

namespace {
struct event {
  char kind;  // m l r
  std::size_t a0, a1, b0, b1;
  bool operator==(event const&) const = default;
};
std::ostream& operator<<(std::ostream& o, event const& e) {
  return o << e.kind << "[" << e.a0 << "," << e.a1 << ")[" << e.b0 << "," << e.b1 << ")";
}

// Expected events from the definition: runs of equivalent elements.
template <typename A, typename B, typename Key>
std::vector<event> oracle(A const& a, B const& b, Key key, bool desc, bool want_l, bool want_r) {
  using K = decltype(key(*std::begin(a)));
  std::map<K, event> m;
  std::size_t i = 0;
  auto get = [&](K k) -> event& { return m.try_emplace(k, event{'x', 0, 0, 0, 0}).first->second; };
  for (auto const& x : a) {
    auto& e = get(key(x));
    if (e.a0 == e.a1) e.a0 = i;
    e.a1 = ++i;
  }
  i = 0;
  for (auto const& x : b) {
    auto& e = get(key(x));
    if (e.b0 == e.b1) e.b0 = i;
    e.b1 = ++i;
  }
  std::vector<event> out;
  for (auto& [k, e] : m) {
    bool ina = e.a0 != e.a1, inb = e.b0 != e.b1;
    e.kind = ina && inb ? 'm' : ina ? 'l' : 'r';
    if ((e.kind == 'l' && !want_l) || (e.kind == 'r' && !want_r)) continue;
    if (!ina) e.a0 = e.a1 = 0;
    if (!inb) e.b0 = e.b1 = 0;
    out.push_back(e);
  }
  if (desc) std::reverse(out.begin(), out.end());
  return out;
}

template <typename C, typename It>
std::size_t pos(C& c, It it) {
  return static_cast<std::size_t>(std::distance(std::begin(c), it));
}

// Compare the reported events with the expectation: the streams of each side
// (matches+left, matches+right) must be the expected ones in order.
void judge(vf::ctx& c, std::vector<event> const& got, std::vector<event> const& want, char const* form) {
  auto side = [](std::vector<event> const& v, char drop) {
    std::vector<event> o;
    for (auto const& e : v) if (e.kind != drop) o.push_back(e);
    return o;
  };
  CHECK_EQ(side(want, 'r'), side(got, 'r'), std::string("left-stream/") + form);
  CHECK_EQ(side(want, 'l'), side(got, 'l'), std::string("right-stream/") + form);
  c.count("groups_reported", got.size());
}

template <typename CA, typename CB, typename Key, typename... Cmp>
void drive(vf::ctx& c, CA& a, CB& b, Key key, bool desc, Cmp... cmp) {
  std::vector<event> ev;
  auto fm = [&](auto al, auto au, auto bl, auto bu) { ev.push_back({'m', pos(a, al), pos(a, au), pos(b, bl), pos(b, bu)}); };
  auto fl = [&](auto al, auto au) { ev.push_back({'l', pos(a, al), pos(a, au), 0, 0}); };
  auto fr = [&](auto bl, auto bu) { ev.push_back({'r', 0, 0, pos(b, bl), pos(b, bu)}); };
  using std::begin;
  using std::end;
  auto const inner = oracle(a, b, key, desc, false, false);
  auto const left = oracle(a, b, key, desc, true, false);
  auto const full = oracle(a, b, key, desc, true, true);
  utl::inner_join(a, b, cmp..., fm);
  judge(c, ev, inner, "inner-c"); ev.clear();
  utl::inner_join(begin(a), end(a), begin(b), end(b), cmp..., fm);
  judge(c, ev, inner, "inner-it"); ev.clear();
  utl::left_join(a, b, cmp..., fm, fl);
  judge(c, ev, left, "left-c"); ev.clear();
  utl::left_join(begin(a), end(a), begin(b), end(b), cmp..., fm, fl);
  judge(c, ev, left, "left-it"); ev.clear();
  utl::full_join(a, b, cmp..., fm, fl, fr);
  judge(c, ev, full, "full-c"); ev.clear();
  utl::full_join(begin(a), end(a), begin(b), end(b), cmp..., fm, fl, fr);
  judge(c, ev, full, "full-it");
  c.count("joins", 6);
}

template <typename T, typename C>
C mk(std::vector<int> const& keys) {
  std::vector<T> v;
  int id = 0;
  for (auto k : keys) {
    T t{};
    t.key = k;
    t.id = id++;
    v.push_back(t);
  }
  return C(v.begin(), v.end());
}

auto const by_key = [](auto const& x) { return x.key; };

struct key_of { template <typename T> int key(T const& t) const { return t.key; } };

void one(vf::ctx& c, std::vector<int> ka, std::vector<int> kb) {
  std::uint64_t h = vf::hcomb(ka.size(), kb.size());
  for (auto k : ka) h = vf::hcomb(h, static_cast<unsigned>(k));
  for (auto k : kb) h = vf::hcomb(h, 77u + static_cast<unsigned>(k));
  if (!ka.empty() && !kb.empty()) c.distinct(h);
  if (c.want_sample()) c.sample(vf::cat("a=", ka, " b=", kb));
  auto const kind = c.r.below(9);
  auto asc = [](auto const& x, auto const& y) { return x.key < y.key; };
  auto dsc = [](auto const& x, auto const& y) { return x.key > y.key; };
  switch (kind) {
    case 0: { auto a = mk<rec, std::vector<rec>>(ka); auto b = mk<rec, std::vector<rec>>(kb); drive(c, a, b, by_key, false); break; }
    case 1: { auto a = mk<rec, std::vector<rec>>(ka); auto b = mk<recb, std::vector<recb>>(kb); drive(c, a, b, by_key, false, asc); break; }
    case 2: {
      std::reverse(ka.begin(), ka.end()); std::reverse(kb.begin(), kb.end());
      auto a = mk<rec, std::deque<rec>>(ka); auto b = mk<recb, std::vector<recb>>(kb); drive(c, a, b, by_key, true, dsc); break; }
#ifndef VF_LEAN
    case 3: { auto a = mk<rec, std::list<rec>>(ka); auto b = mk<recb, std::forward_list<recb>>(kb); drive(c, a, b, by_key, false, asc); break; }
    case 4: { auto a = mk<recb, std::forward_list<recb>>(ka); auto b = mk<rec, std::list<rec>>(kb); drive(c, a, b, by_key, false); break; }
#endif
    case 5: { auto a = std::multiset<int>(ka.begin(), ka.end()); auto b = std::vector<int>(kb); drive(c, a, b, [](int k) { return k; }, false); break; }
    case 6: {
      auto const a = mk<rec, std::vector<rec>>(ka); auto const b = mk<recb, std::deque<recb>>(kb);
      drive(c, a, b, by_key, false, utl::join_less<key_of>{}); break; }
    case 7: {
      auto s = [](std::vector<int> const& k) { std::vector<std::string> v; for (auto x : k) v.push_back("k" + std::to_string(x)); std::sort(v.begin(), v.end()); return v; };
      auto a = s(ka); auto b = s(kb); drive(c, a, b, [](std::string const& k) { return k; }, false); break; }
    default: {
      std::vector<double> a(ka.begin(), ka.end()); std::vector<int> b(kb);
      drive(c, a, b, [](auto k) { return static_cast<double>(k); }, false, [](auto x, auto y) { return x < y; }); break; }
  }
}
}  // namespace

SCENARIO(random, 6000, 200000) {
  auto const na = c.r.size(60), nb = c.r.size(60);
  auto ka = gen::sorted_keys(c.r, na);
  auto kb = c.r.chance(1, 3) ? ka : gen::sorted_keys(c.r, nb);
  if (c.r.chance(1, 4)) {  // shift so that ranges are nested / disjoint
    auto d = static_cast<int>(c.r.range(-20, 20));
    for (auto& k : kb) k = static_cast<int>(std::clamp<std::int64_t>(std::int64_t{k} + d, INT32_MIN, INT32_MAX));
  }
  one(c, ka, kb);
}

// all pairs of sorted multisets over {0,1,2,3} with at most 2 copies each
SCENARIO(exhaustive, 6561, 6561) {
  auto x = c.idx;
  std::vector<int> ka, kb;
  for (int k = 0; k < 4; ++k) { for (std::uint64_t j = 0; j < x % 3; ++j) ka.push_back(k); x /= 3; }
  for (int k = 0; k < 4; ++k) { for (std::uint64_t j = 0; j < x % 3; ++j) kb.push_back(k); x /= 3; }
  one(c, ka, kb);
}

SCENARIO(large, 24, 200) {
  auto const n = c.r.pick({255u, 256u, 257u, 1000u, 32767u, 32769u, 65535u, 65537u, 70000u});
  std::vector<int> ka, kb;
  int k = -3;
  while (ka.size() < n) { auto run = 1 + c.r.below(c.r.chance(1, 4) ? n : 40); for (std::uint64_t i = 0; i < run && ka.size() < n; ++i) ka.push_back(k); k += 1 + static_cast<int>(c.r.below(3)); }
  int const kmax = k;
  k = -3;
  auto const nb = c.r.chance(1, 3) ? n : 1 + c.r.below(n);
  while (kb.size() < nb && k < kmax + 50) { auto run = 1 + c.r.below(c.r.chance(1, 4) ? n : 40); for (std::uint64_t i = 0; i < run && kb.size() < nb; ++i) kb.push_back(k); k += 1 + static_cast<int>(c.r.below(3)); }
  auto const asc = [](auto const& x, auto const& y) { return x.key < y.key; };
  auto a = mk<rec, std::vector<rec>>(ka);
  auto b = mk<recb, std::vector<recb>>(kb);
  c.distinct(vf::hcomb(n, nb));
  drive(c, a, b, by_key, false, asc);
  drive(c, b, a, by_key, false, asc);
}
SCENARIO(many_groups, 6, 40) {  // more groups than narrow counters hold
  auto const n = c.r.pick({65534u, 65536u, 65537u, 70000u, 131073u});
  std::vector<int> ka, kb;
  auto const only = c.r.below(4);  // sides overlap, mostly overlap, hardly overlap, one is a subset
  for (unsigned k = 0; k < n; ++k) {
    auto const x = only == 0 ? c.r.below(4) : only == 1 ? 3 : only == 2 ? 1 + c.r.below(2) : 1 + 2 * c.r.below(2);
    if (x & 1) ka.insert(ka.end(), c.r.chance(1, 50) ? 2 : 1, static_cast<int>(k));
    if (x & 2) kb.insert(kb.end(), c.r.chance(1, 50) ? 2 : 1, static_cast<int>(k));
  }
  auto const asc = [](auto const& x, auto const& y) { return x.key < y.key; };
  auto a = mk<rec, std::vector<rec>>(ka);
  auto b = mk<recb, std::vector<recb>>(kb);
  c.distinct(vf::hcomb(ka.size(), kb.size()));
  drive(c, a, b, by_key, false, asc);
}
