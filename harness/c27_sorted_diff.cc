#include "gen.h"
#include "utl/sorted_diff.h"

namespace {
struct el { int key; int val; auto operator<=>(el const&) const = default; };
std::ostream& operator<<(std::ostream& o, el const& e) { return o << e.key << "=" << e.val; }
struct event {
  char kind;  // a d c
  el x{}, y{};
  el const* px{nullptr};
  el const* py{nullptr};
};

template <typename K> struct handler {
  std::vector<event>& ev;
  void operator()(utl::op const o, el const& e) const { ev.push_back({o == utl::op::kAdd ? 'a' : 'd', e, {}, &e, nullptr}); }
  void operator()(el const& o, el const& n) const { ev.push_back({'c', o, n, &o, &n}); }
};

// Oracle: pair up equal keys one to one in order; leftover copies are
// deletions/additions. Within one key: first min(na,nb) pairs, rest add/del.
template <typename CA, typename CB>
void judge(vf::ctx& c, CA const& a, CB const& b, std::vector<event> const& ev, bool desc, char const* form) {
  auto le = [&](int x, int y) { return desc ? x >= y : x <= y; };
  std::vector<el> va(a.begin(), a.end()), vb(b.begin(), b.end());
  std::vector<el const*> pa, pb;
  for (auto const& x : a) pa.push_back(&x);
  for (auto const& x : b) pb.push_back(&x);
  // replay: walk a; apply events in order -> must give b
  std::vector<el> out;
  std::size_t i = 0, j = 0, e = 0;
  auto F = [&](char const* k) { return std::string(k) + "/" + form; };
  // expected event list from the definition
  std::vector<event> want;
  while (i < va.size() || j < vb.size()) {
    int key;
    if (i == va.size()) key = vb[j].key;
    else if (j == vb.size()) key = va[i].key;
    else key = le(va[i].key, vb[j].key) ? va[i].key : vb[j].key;
    while (i < va.size() && va[i].key == key && j < vb.size() && vb[j].key == key) {
      if (!(va[i] == vb[j])) want.push_back({'c', va[i], vb[j], pa[i], pb[j]});
      ++i; ++j;
    }
    while (i < va.size() && va[i].key == key) { want.push_back({'d', va[i], {}, pa[i], nullptr}); ++i; }
    while (j < vb.size() && vb[j].key == key) { want.push_back({'a', vb[j], {}, pb[j], nullptr}); ++j; }
  }
  CHECK(want.size() == ev.size(), F("event-count"), "want ", want.size(), " got ", ev.size(), " a=", va, " b=", vb);
  for (; e < ev.size(); ++e) {
    auto const& w = want[e];
    auto const& g = ev[e];
    CHECK(w.kind == g.kind && w.x == g.x && (w.kind != 'c' || w.y == g.y), F("event"), "#", e, " want ", std::string(1, w.kind), w.x, "/", w.y, " got ", std::string(1, g.kind), g.x, "/", g.y, " a=", va, " b=", vb);
    CHECK(w.px == g.px && w.py == g.py, F("event-identity"), "#", e);
  }
  if (va.size() + vb.size() > 3000) { c.count("events", ev.size()); return; }
  // independent second oracle: applying the events transforms a into b
  std::vector<el> res = va;
  for (auto const& g : ev) {
    if (g.kind == 'a') {
      auto it = std::upper_bound(res.begin(), res.end(), g.x, [&](el const& x, el const& y) { return desc ? x.key > y.key : x.key < y.key; });
      res.insert(it, g.x);
    } else {
      auto it = std::find(res.begin(), res.end(), g.x);
      CHECK(it != res.end(), F("apply-missing"), g.x);
      if (g.kind == 'd') res.erase(it); else *it = g.y;
    }
  }
  auto norm = [](std::vector<el> v) { std::sort(v.begin(), v.end(), [](el const& x, el const& y) { return std::tie(x.key, x.val) < std::tie(y.key, y.val); }); return v; };
  CHECK_EQ(norm(vb), norm(res), F("apply"));
  c.count("events", ev.size());
}

template <typename C>
void drive(vf::ctx& c, std::vector<el> const& va, std::vector<el> const& vb, bool desc) {
  C const a(va.begin(), va.end()), b(vb.begin(), vb.end());
  std::vector<event> ev;
  std::size_t bad = 0;
  auto lt = [&](el const& x, el const& y) { return desc ? x.key > y.key : x.key < y.key; };
  auto eq = [&](el const& x, el const& y) { if (x.key != y.key) ++bad; return x == y; };
  utl::sorted_diff(a, b, lt, eq, handler<int>{ev});
  judge(c, a, b, ev, desc, "container");
  ev.clear();
  utl::sorted_diff(a.begin(), a.end(), b.begin(), b.end(), lt, eq, handler<int>{ev});
  judge(c, a, b, ev, desc, "iterator");
  CHECK(bad == 0, "deep-eq-on-different-keys");
  c.count("diffs", 2);
  // one collection against itself: what deep_eq says about each pair decides
  {
    std::vector<el> self;
    struct H { std::vector<el>& self; vf::ctx& c; void operator()(utl::op, el const&) { c.violate("self/added or deleted", ""); }
      void operator()(el const& x, el const& y) { if (&x != &y) c.violate("self/pair", ""); self.push_back(x); } };
    int const pick = c.r.below(3) == 0 ? -1 : static_cast<int>(c.r.below(3));  // values that count as changed
    auto differs = [&](el const& x) { return pick < 0 || x.val == pick; };
    utl::sorted_diff(a, a, lt, [&](el const& x, el const&) { return !differs(x); }, H{self, c});
    std::vector<el> w;
    for (auto const& x : a) if (differs(x)) w.push_back(x);
    CHECK_EQ(w, self, "self/changed");
    self.clear();
    utl::sorted_diff(a.begin(), a.end(), a.begin(), a.end(), lt, [&](el const& x, el const&) { return !differs(x); }, H{self, c});
    CHECK_EQ(w, self, "self/changed/iterator");
    c.count("self-diffs", 2);
  }
}

void one(vf::ctx& c, std::vector<el> a, std::vector<el> b) {
  bool const desc = c.r.chance(1, 3);
  auto lt = [&](el const& x, el const& y) { return desc ? x.key > y.key : x.key < y.key; };
  std::stable_sort(a.begin(), a.end(), lt);
  std::stable_sort(b.begin(), b.end(), lt);
  if (!a.empty() && !b.empty()) {
    std::uint64_t h = 1;
    for (auto& x : a) h = vf::hcomb(h, vf::hcomb(static_cast<unsigned>(x.key), x.val));
    for (auto& x : b) h = vf::hcomb(h, 7 + vf::hcomb(static_cast<unsigned>(x.key), x.val));
    c.distinct(h);
  }
  if (c.want_sample()) c.sample(vf::cat("a=", a, " b=", b));
  switch (c.r.below(4)) {
    case 0: drive<std::vector<el>>(c, a, b, desc); break;
#ifndef VF_LEAN
    case 1: drive<std::list<el>>(c, a, b, desc); break;
    case 2: drive<std::deque<el>>(c, a, b, desc); break;
#endif
#ifndef VF_LEAN
    case 3: drive<std::forward_list<el>>(c, a, b, desc); break;
#endif
    default: drive<std::vector<el>>(c, a, b, desc); break;
  }
}
}  // namespace

SCENARIO(random, 12000, 400000) {
  auto const ka = gen::keys(c.r, gen::small_size(c.r));
  std::vector<el> a, b;
  for (auto k : ka) a.push_back({k, static_cast<int>(c.r.below(3))});
  if (c.r.chance(1, 2)) {
    for (auto const& x : a) {
      auto const w = c.r.below(10);
      if (w == 0) continue;
      if (w == 1) b.push_back({x.key, x.val + 1});
      else b.push_back(x);
      if (w == 2) b.push_back({x.key, static_cast<int>(c.r.below(3))});
      if (w == 3) b.push_back({static_cast<int>(c.r.range(-50, 50)), 0});
    }
  } else {
    for (auto k : gen::keys(c.r, gen::small_size(c.r))) b.push_back({k, static_cast<int>(c.r.below(3))});
  }
  one(c, a, b);
}

// every pair over 3 keys, up to 2 copies each; values from the case rng
SCENARIO(exhaustive, 5832, 5832) {
  auto x = c.idx;
  std::vector<el> a, b;
  for (int k = 0; k < 3; ++k) { for (std::uint64_t j = 0; j < x % 3; ++j) a.push_back({k, static_cast<int>(c.r.below(2))}); x /= 3; }
  for (int k = 0; k < 3; ++k) { for (std::uint64_t j = 0; j < x % 3; ++j) b.push_back({k, static_cast<int>(c.r.below(2))}); x /= 3; }
  one(c, a, b);
}

SCENARIO(large, 16, 100) {
  auto const n = c.r.pick({255u, 257u, 4096u, 65535u, 65537u});
  std::vector<el> a, b;
  for (unsigned i = 0; i < n; ++i) a.push_back({static_cast<int>(c.r.below(n)), static_cast<int>(c.r.below(3))});
  for (auto const& x : a) { if (!c.r.chance(1, 9)) b.push_back(c.r.chance(1, 9) ? el{x.key, 9} : x); }
  for (unsigned i = 0; i < n / 10; ++i) b.push_back({static_cast<int>(c.r.below(2 * n)), 1});
  one(c, a, b);
}

// self-diff is empty; diff against empty is all deletions; element types
SCENARIO(strings, 1500, 20000) {
  std::set<std::string> a, b;
  for (auto n = c.r.below(20); n; --n) a.insert(gen::word(c.r, 4));
  for (auto n = c.r.below(20); n; --n) b.insert(gen::word(c.r, 4));
  std::vector<std::string> add, del, wadd, wdel;
  struct H { std::vector<std::string>&add, &del; vf::ctx& c; void operator()(utl::op o, std::string const& s) { (o == utl::op::kAdd ? add : del).push_back(s); }
    void operator()(std::string const&, std::string const&) { c.violate("strings/changed-equal", ""); } } h{add, del, c};
  utl::sorted_diff(a, b, std::less<std::string>{}, std::equal_to<std::string>{}, h);
  std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(wadd));
  std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(wdel));
  CHECK_EQ(wadd, add, "strings/add");
  CHECK_EQ(wdel, del, "strings/del");
  CHECK(utl::to_str(utl::op::kAdd) == "add" && utl::to_str(utl::op::kDel) == "del", "op-name");
  c.count("diffs");
}
