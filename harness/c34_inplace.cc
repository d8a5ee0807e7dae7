#include "gen.h"
#include <map>
#include <set>
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/insert_sorted.h"
#include "utl/sort_by.h"
#ifndef VF_FALLBACK
#include "utl/sort_by.h"  // may be included by several headers
#endif

namespace {
struct hv {  // heap-backed value: use after free and double moves show up
  std::unique_ptr<int> p;
  hv(int x = 0) : p{std::make_unique<int>(x)} {}
  hv(hv const& o) : p{o.p ? std::make_unique<int>(*o.p) : nullptr} {}
  hv(hv&&) = default;
  hv& operator=(hv const& o) { p = o.p ? std::make_unique<int>(*o.p) : nullptr; return *this; }
  hv& operator=(hv&&) = default;
  int v() const { return p ? *p : -999999; }
  friend bool operator==(hv const& a, hv const& b) { return a.v() == b.v(); }
  friend bool operator!=(hv const& a, hv const& b) { return a.v() != b.v(); }
  friend bool operator<(hv const& a, hv const& b) { return a.v() < b.v(); }
  friend bool operator>(hv const& a, hv const& b) { return a.v() > b.v(); }
  friend bool operator<=(hv const& a, hv const& b) { return a.v() <= b.v(); }
  friend bool operator>=(hv const& a, hv const& b) { return a.v() >= b.v(); }
  friend std::ostream& operator<<(std::ostream& o, hv const& x) { return o << x.v(); }
};
int val(int x) { return x; }
int val(hv const& x) { return x.v(); }
int val(std::string const& s) { return static_cast<int>(vf::hstr(s)); }
template <typename T> T mk(int x) { if constexpr (std::is_same_v<T, std::string>) return "k" + std::to_string(x) + std::string(static_cast<std::size_t>(x & 31), 'y'); else return T{x}; }
template <typename C> C build(std::vector<int> const& k) { C r; for (auto x : k) r.push_back(mk<typename C::value_type>(x)); return r; }
template <typename C> std::vector<int> vals(C const& c) { std::vector<int> v; for (auto const& x : c) v.push_back(val(x)); return v; }
void note(vf::ctx& c, std::vector<int> const& k, unsigned salt) {
  auto h = vf::hcomb(salt, k.size());
  for (auto x : k) h = vf::hcomb(h, static_cast<unsigned>(x));
  if (!k.empty()) c.distinct(h);
  if (c.want_sample()) c.sample(vf::cat(k));
}

template <typename C, typename Less>
void ins(vf::ctx& c, std::vector<int> const& k, Less less, bool use_default) {
  C col;
  for (auto x : k) {
    auto const el = mk<typename C::value_type>(x);
    auto const before = vals(col);
    bool const present = std::find(col.begin(), col.end(), el) != col.end();
    auto res = use_default ? utl::insert_sorted(col, el) : utl::insert_sorted(col, el, less);
    CHECK_EQ(!present, res.second, "inserted-flag", "value ", val(el), " in ", before);
    CHECK(res.first != col.end() && *res.first == el, "returned-iterator", val(el));
    CHECK(std::is_sorted(col.begin(), col.end(), less), "sorted", vals(col));
    auto want = before;
    auto got = vals(col);
    if (!present) want.push_back(val(el));
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    CHECK_EQ(want, got, "contents", "after ", val(el));
    c.count("inserts");
  }
  // element taken from the collection itself
  if (!col.empty()) {
    auto const n = col.size();
    auto res = utl::insert_sorted(col, *std::next(col.begin(), static_cast<std::ptrdiff_t>(c.r.below(n))), less);
    CHECK(!res.second && col.size() == n, "self-element");
  }
}

template <typename C>
void er(vf::ctx& c, std::vector<int> const& k) {
  using T = typename C::value_type;
  auto col = build<C>(k);
  auto const n = col.size();
  int const pick = !k.empty() && c.r.chance(3, 4) ? k[c.r.below(k.size())] : static_cast<int>(c.r.range(-3, 3));
  auto const el = mk<T>(pick);
  std::vector<int> want;
  for (auto const& x : col) if (!(x == el)) want.push_back(val(x));
  switch (c.r.below(4)) {
    case 0: utl::erase(col, el); break;
    case 1: if (n) { auto it = std::find(col.begin(), col.end(), el); if (it != col.end()) utl::erase(col, *it); else utl::erase(col, el); } break;  // element of the collection itself
    case 2: utl::erase(std::move(col), el); break;  // rvalue form edits in place
    default: utl::erase_if(col, [&](T const& x) { return x == el; }); break;
  }
  CHECK_EQ(want, vals(col), "erase", "element ", val(el), " of ", k);
  c.count("erases");
  // erase_if with a random predicate, each element asked exactly once in order
  col = build<C>(k);
  auto const m = 1 + c.r.below(4);
  want.clear();
  std::vector<int> asked, all = vals(col);
  auto keep = [&](int v) { return vf::mix(static_cast<unsigned>(v)) % 4 >= m; };
  for (auto v : all) if (keep(v)) want.push_back(v);
  utl::erase_if(col, [&](T const& x) { asked.push_back(val(x)); return !keep(val(x)); });
  CHECK_EQ(want, vals(col), "erase_if", "of ", k);
  CHECK_EQ(all, asked, "erase_if-asked");
  c.count("erases");
}

template <typename C>
void dup(vf::ctx& c, std::vector<int> const& k) {
  using T = typename C::value_type;
  auto const norm = [](std::vector<int> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; };
  auto col = build<C>(k);
  auto const orig = vals(col);
  utl::erase_duplicates(col);
  CHECK(std::is_sorted(col.begin(), col.end()), "dup-sorted", k);
  auto s = vals(col); std::sort(s.begin(), s.end());
  CHECK_EQ(norm(orig), s, "dup", k);
  auto desc = build<C>(k);
  utl::erase_duplicates(desc, [](T const& a, T const& b) { return b < a; }, std::equal_to<T>{});
  CHECK(std::is_sorted(desc.rbegin(), desc.rend()), "dup-desc-sorted", k);
  s = vals(desc); std::sort(s.begin(), s.end());
  CHECK_EQ(norm(orig), s, "dup-desc", k);
  // range form: only [b, e) is touched
  auto rg = build<C>(k);
  auto const b = c.r.below(k.size() + 1), e = b + c.r.below(k.size() - b + 1);
  auto const B = static_cast<std::ptrdiff_t>(b), E = static_cast<std::ptrdiff_t>(e);
  // (the range form erases up to its own end)
  auto part = std::vector<T>(rg.begin() + B, rg.begin() + E);
  std::sort(part.begin(), part.end());
  part.erase(std::unique(part.begin(), part.end()), part.end());
  std::vector<int> want(orig.begin(), orig.begin() + B);
  for (auto const& x : part) want.push_back(val(x));
  want.insert(want.end(), orig.begin() + E, orig.end());
  utl::erase_duplicates(rg, rg.begin() + B, rg.begin() + E, std::less<T>{}, std::equal_to<T>{});
  CHECK_EQ(want, vals(rg), "dup-range", "[", b, ",", e, ") of ", k);
  c.count("dedups", 3);
}

template <typename A, typename B>
void sb(vf::ctx& c, std::vector<int> const& k) {
  auto key = build<std::vector<A>>(k);
  std::vector<int> id(k.size());
  std::iota(id.begin(), id.end(), 0);
  std::vector<B> oth;
  for (auto i : id) oth.push_back(mk<B>(i * 7 + 1));
  auto const key0 = key; auto const id0 = id; auto const oth0 = oth;
  auto const judge = [&](auto const& ret, bool with_oth) {
    auto const& rk = std::get<0>(ret); auto const& ri = std::get<1>(ret);
    CHECK(rk.size() == k.size() && ri.size() == k.size(), "sort_by-size");
    CHECK(std::is_sorted(rk.begin(), rk.end()), "sort_by-sorted", k);
    std::vector<bool> seen(k.size());
    for (std::size_t i = 0; i < k.size(); ++i) {
      auto const o = static_cast<std::size_t>(ri[i]);
      CHECK(o < k.size() && !seen[o], "sort_by-permutation", k);
      seen[o] = true;
      CHECK(rk[i] == key0[o], "sort_by-common-permutation", k);
    }
    if constexpr (std::tuple_size_v<std::decay_t<decltype(ret)>> == 3) for (std::size_t i = 0; i < k.size(); ++i) CHECK(std::get<2>(ret)[i] == oth0[static_cast<std::size_t>(ri[i])], "sort_by-common-permutation-3", k);
  };
  if (c.r.chance(1, 2)) judge(utl::sort_by(key, id, oth), true); else judge(utl::sort_by(key, id), false);
  CHECK(key == key0 && id == id0 && oth == oth0, "sort_by-inputs", k);
#ifndef VF_FALLBACK
  judge(utl::sort_by(key0, id0, oth0), true);
  judge(utl::sort_by(key0, id, oth0), true);
  CHECK(key == key0 && id == id0 && oth == oth0, "sort_by-inputs", k);
#endif
  judge(utl::sort_by(build<std::vector<A>>(k), std::vector<int>(id), std::vector<B>(oth)), true);
  c.count("sorts", 2);
}
}  // namespace

SCENARIO(insert, 1200, 40000) {
  auto k = gen::keys(c.r, gen::small_size(c.r) % 60);
  note(c, k, 1);
  auto desc = [](auto const& a, auto const& b) { return b < a; };
  switch (c.r.below(6)) {
    case 0: ins<std::vector<int>>(c, k, std::less<int>{}, true); break;
    case 1: ins<std::vector<int>>(c, k, desc, false); break;
    case 2: ins<std::vector<hv>>(c, k, std::less<hv>{}, true); break;
    case 3: ins<std::deque<hv>>(c, k, desc, false); break;
#ifndef VF_LEAN
    case 4: ins<std::list<int>>(c, k, std::less<int>{}, true); break;
#endif
    default: ins<std::vector<std::string>>(c, k, std::less<std::string>{}, true); break;
  }
}
SCENARIO(erase, 2500, 80000) {
  auto k = gen::keys(c.r, gen::small_size(c.r));
  if (c.idx < 400) { k.clear(); auto x = c.idx; for (unsigned i = 0; i < c.idx % 6; ++i) { k.push_back(static_cast<int>(x % 3)); x /= 3; } }
  note(c, k, 2);
  switch (c.r.below(6)) {
    case 0: er<std::vector<int>>(c, k); break;
    case 1: er<std::vector<hv>>(c, k); break;
    case 2: er<std::deque<hv>>(c, k); break;
#ifndef VF_LEAN
    case 3: er<std::list<hv>>(c, k); break;
#endif
    case 4: er<std::vector<std::string>>(c, k); break;
    default: {
      std::set<int> s(k.begin(), k.end()), w = s;
      int const e = !k.empty() && c.r.chance(3, 4) ? k[c.r.below(k.size())] : 17;
      w.erase(e);
      if (c.r.chance(1, 2)) utl::erase(s, e); else utl::erase(std::move(s), e);
      CHECK_EQ(w, s, "erase-set", e);
      // element of the set itself
      if (!s.empty()) { auto const f = *s.begin(); w.erase(f); utl::erase(s, *s.begin()); CHECK_EQ(w, s, "erase-set-self", f); }
      c.count("erases");
    }
  }
}
SCENARIO(duplicates, 2000, 80000) {
  auto k = gen::keys(c.r, gen::small_size(c.r));
  note(c, k, 3);
  switch (c.r.below(4)) {
    case 0: dup<std::vector<int>>(c, k); break;
    case 1: dup<std::vector<hv>>(c, k); break;
    case 2: dup<std::deque<hv>>(c, k); break;
    default: dup<std::vector<std::string>>(c, k); break;
  }
}
SCENARIO(sort_by, 1500, 60000) {
  auto k = gen::keys(c.r, gen::small_size(c.r));
  note(c, k, 4);
  switch (c.r.below(3)) {
    case 0: sb<int, hv>(c, k); break;
    case 1: sb<hv, std::string>(c, k); break;
    default: sb<std::string, int>(c, k); break;
  }
}
SCENARIO(large, 8, 48) {
  auto k = gen::keys(c.r, c.r.pick({256u, 1000u, 20000u, 65537u}));
  note(c, k, 5);
  er<std::vector<int>>(c, k); dup<std::vector<int>>(c, k); sb<int, int>(c, k);
}
