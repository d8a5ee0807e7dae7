// C38: iterators derived from the iterator facade vs. a position model.
#include "vf.h"
#include "gen.h"

#include "utl/iterator_facade.h"

namespace {
using seq = std::vector<std::string>;

struct misuse {};  // primitive called outside the sequence: recorded
static std::uint64_t prim = 0, bad = 0;

struct base_pos {
  seq* s = nullptr;
  std::ptrdiff_t i = 0;
  void go(std::ptrdiff_t n) { ++prim; if (i + n < 0 || i + n > static_cast<std::ptrdiff_t>(s->size())) ++bad; i += n; }
  std::string& at() const { ++prim; if (i < 0 || i >= static_cast<std::ptrdiff_t>(s->size())) { ++bad; static std::string x; return x; } return (*s)[static_cast<std::size_t>(i)]; }
};

// random access, reference
struct ra : utl::iterator_facade<ra> {
  ra() = default;
  ra(seq& s, std::ptrdiff_t i) : p{&s, i} {}
  std::string& dereference() const { return p.at(); }
  void advance(std::ptrdiff_t n) { p.go(n); }
  std::ptrdiff_t distance_to(ra const& o) const { return o.p.i - p.i; }
  base_pos p;
};
// random access with narrow difference type yielding values, plus increment/decrement/equal_to
struct ra_val : utl::iterator_facade<ra_val> {
  ra_val() = default;
  ra_val(seq& s, std::ptrdiff_t i) : p{&s, i} {}
  std::string dereference() const { return p.at(); }
  void increment() { p.go(1); }
  void decrement() { p.go(-1); }
  void advance(int n) { p.go(n); }
  int distance_to(ra_val const& o) const { return static_cast<int>(o.p.i - p.i); }
  bool equal_to(ra_val const& o) const { return p.i == o.p.i; }
  base_pos p;
};
struct bidi : utl::iterator_facade<bidi> {
  bidi() = default;
  bidi(seq& s, std::ptrdiff_t i) : p{&s, i} {}
  std::string const& dereference() const { return p.at(); }
  void increment() { p.go(1); }
  void decrement() { p.go(-1); }
  bool equal_to(bidi const& o) const { return p.i == o.p.i; }
  base_pos p;
};
struct fwd : utl::iterator_facade<fwd> {
  fwd() = default;
  fwd(seq& s, std::ptrdiff_t i) : p{&s, i} {}
  std::string& dereference() const { return p.at(); }
  void increment() { p.go(1); }
  bool equal_to(fwd const& o) const { return p.i == o.p.i; }
  base_pos p;
};
struct once : utl::iterator_facade<once> {
  static constexpr bool single_pass_iterator = true;
  once() = default;
  once(seq& s, std::ptrdiff_t i) : p{&s, i} {}
  std::string dereference() const { return p.at(); }
  void increment() { p.go(1); }
  bool equal_to(once const& o) const { return p.i == o.p.i; }
  base_pos p;
};
// distance without advance: forward, equality from the distance
struct dist : utl::iterator_facade<dist> {
  dist() = default;
  dist(seq& s, std::ptrdiff_t i) : p{&s, i} {}
  std::string& dereference() const { return p.at(); }
  void increment() { p.go(1); }
  std::ptrdiff_t distance_to(dist const& o) const { return o.p.i - p.i; }
  base_pos p;
};
// wrappers
struct wvec : utl::iterator_wrapper_facade<wvec, seq::iterator> {
  wvec() = default;
  explicit wvec(seq::iterator i) : utl::iterator_wrapper_facade<wvec, seq::iterator>{i} {}
  std::string& dereference() const { return *wrapped_iterator; }
};
struct wptr : utl::iterator_wrapper_facade<wptr, std::string const*> {
  wptr() = default;
  explicit wptr(std::string const* i) : utl::iterator_wrapper_facade<wptr, std::string const*>{i} {}
  std::size_t dereference() const { return wrapped_iterator->size(); }
};
#ifndef VF_FALLBACK
struct wlist : utl::iterator_wrapper_facade<wlist, std::list<std::string>::iterator> {
  wlist() = default;
  explicit wlist(std::list<std::string>::iterator i) : utl::iterator_wrapper_facade<wlist, std::list<std::string>::iterator>{i} {}
  std::string& dereference() const { return *wrapped_iterator; }
};
// documented: advance(+-1) alone makes a bidirectional iterator
struct step : utl::iterator_facade<step> {
  step() = default;
  step(seq& s, std::ptrdiff_t i) : p{&s, i} {}
  std::string& dereference() const { return p.at(); }
  void advance(std::ptrdiff_t n) { if (n != 1 && n != -1) ++bad; p.go(n); }
  bool equal_to(step const& o) const { return p.i == o.p.i; }
  base_pos p;
};
struct the_end {};
struct other_end {};
struct sent : utl::iterator_facade<sent> {
  using sentinel_type = the_end;
  sent() = default;
  sent(seq& s, std::ptrdiff_t i) : p{&s, i} {}
  std::string& dereference() const { return p.at(); }
  void increment() { p.go(1); }
  bool at_end() const { return p.i == static_cast<std::ptrdiff_t>(p.s->size()); }
  bool equal_to(sent const& o) const { return p.i == o.p.i; }
  base_pos p;
};
#endif

template <typename It> using cat_t = typename std::iterator_traits<It>::iterator_category;
template <typename It, typename Tag> constexpr bool is_cat = std::is_same_v<cat_t<It>, Tag>;

template <typename V> auto conv(std::string const& s) { if constexpr (std::is_same_v<V, std::size_t>) return s.size(); else return s; }

// laws that hold for every multi-pass iterator; at(i) makes an iterator
template <typename At>
void forward_laws(vf::ctx& c, seq& s, At const& at, char const* k0) {
  using It = decltype(at(0));
  using V = typename std::iterator_traits<It>::value_type;
  auto const n = static_cast<std::ptrdiff_t>(s.size());
  std::string const k = k0;
  auto i = c.r.range(0, n), j = c.r.range(0, n);
  CHECK((at(i) == at(j)) == (i == j), k + "/==", i, j); CHECK((at(i) != at(j)) == (i != j), k + "/!=", i, j); CHECK(at(i) == at(i) && !(at(i) != at(i)), k + "/self-==");
  if (i < n) {
    auto it = at(i);
    CHECK_EQ(conv<V>(s[static_cast<std::size_t>(i)]), *it, k + "/*", i);
    if constexpr (std::is_same_v<V, std::string>) CHECK_EQ(s[static_cast<std::size_t>(i)].size(), it->size(), k + "/->", i);
    if constexpr (std::is_reference_v<typename std::iterator_traits<It>::reference> && std::is_same_v<V, std::string>) { auto& ref = *it; CHECK(&ref == &*at(i) && it.operator->() == &ref, k + "/address", i); }
    auto& r1 = ++it;
    CHECK(&r1 == &it && it == at(i + 1), k + "/++pre", i);
    auto it2 = at(i);
    auto const old = it2++;
    CHECK(old == at(i) && it2 == at(i + 1), k + "/post++", i);
    auto it3 = at(i);
    CHECK_EQ(conv<V>(s[static_cast<std::size_t>(i)]), *it3++, k + "/*post++", i);
  }
  // traversal and copies
  std::vector<V> got; auto const e = at(n);
  auto keep = at(0);
  std::vector<It> all;
  for (auto it = at(0); it != e; ++it) { got.push_back(*it); all.push_back(it); }
  std::vector<V> want; for (auto const& x : s) want.push_back(conv<V>(x));
  CHECK_EQ(want, got, k + "/traversal");
  for (std::size_t q = 0; q < all.size(); ++q) CHECK_EQ(want[q], *all[q], k + "/multi-pass", q);
  CHECK(keep == at(0), k + "/copy-moved");
  CHECK_EQ(n, static_cast<std::ptrdiff_t>(std::distance(at(0), e)), k + "/distance");
  CHECK(std::next(at(0), i) == at(i), k + "/next", i);
  if (n) {
    auto const& w = want[c.r.below(want.size())];
    CHECK_EQ(static_cast<std::ptrdiff_t>(std::find(want.begin(), want.end(), w) - want.begin()), static_cast<std::ptrdiff_t>(std::distance(at(0), std::find(at(0), e, w))), k + "/find");
    CHECK_EQ(std::count(want.begin(), want.end(), w), static_cast<std::ptrdiff_t>(std::count(at(0), e, w)), k + "/count");
    CHECK(std::max_element(at(0), e) == at(std::max_element(want.begin(), want.end()) - want.begin()), k + "/max_element");
  }
  CHECK_EQ(want, std::vector<V>(at(0), e), k + "/copy-construct");
  CHECK(std::equal(at(0), e, want.begin(), want.end()), k + "/equal");
  It dflt{}; dflt = at(i); CHECK(dflt == at(i), k + "/assign");
  c.count("laws", 15);
}
template <typename At>
void bidi_laws(vf::ctx& c, seq& s, At const& at, char const* k0) {
  using It = decltype(at(0));
  using V = typename std::iterator_traits<It>::value_type;
  auto const n = static_cast<std::ptrdiff_t>(s.size());
  std::string const k = k0;
  if (n) {
    auto const i = c.r.range(1, n);
    auto it = at(i);
    auto& r = --it;
    CHECK(&r == &it && it == at(i - 1), k + "/--pre", i);
    auto it2 = at(i);
    auto const old = it2--;
    CHECK(old == at(i) && it2 == at(i - 1), k + "/post--", i);
    CHECK_EQ(conv<V>(s[static_cast<std::size_t>(i - 1)]), *it2, k + "/*--", i);
  }
  auto const i = c.r.range(0, n);
  CHECK(std::prev(at(n), n - i) == at(i), k + "/prev", i);
  CHECK(std::next(at(n), i - n) == at(i), k + "/next-negative", i);
  std::vector<V> want; for (auto x = s.rbegin(); x != s.rend(); ++x) want.push_back(conv<V>(*x));
  std::vector<V> got;
  for (auto it = at(n); it != at(0);) { --it; got.push_back(*it); }
  CHECK_EQ(want, got, k + "/backwards");
  if constexpr (std::is_reference_v<typename std::iterator_traits<It>::reference>) CHECK_EQ(want, std::vector<V>(std::make_reverse_iterator(at(n)), std::make_reverse_iterator(at(0))), k + "/reverse_iterator");
  // a random walk
  auto it = at(i); auto pos = i;
  for (int q = 0; q < 40; ++q) {
    switch (c.r.below(4)) {
      case 0: if (pos < n) { ++it; ++pos; } break;
      case 1: if (pos > 0) { --it; --pos; } break;
      case 2: if (pos < n) { CHECK(it++ == at(pos), k + "/walk-post++"); ++pos; } break;
      default: if (pos > 0) { CHECK(it-- == at(pos), k + "/walk-post--"); --pos; } break;
    }
    CHECK(it == at(pos), k + "/walk", pos);
    if (pos < n) CHECK_EQ(conv<V>(s[static_cast<std::size_t>(pos)]), *it, k + "/walk-*", pos);
  }
  c.count("laws", 10);
}
template <typename At>
void ra_laws(vf::ctx& c, seq& s, At const& at, char const* k0) {
  using It = decltype(at(0));
  using V = typename std::iterator_traits<It>::value_type;
  using D = typename std::iterator_traits<It>::difference_type;
  auto const n = static_cast<std::ptrdiff_t>(s.size());
  std::string const k = k0;
  for (int q = 0; q < 12; ++q) {
    auto const i = c.r.range(0, n), j = c.r.range(0, n);
    auto const a = at(i), b = at(j);
    auto const d = static_cast<D>(j - i);
    CHECK_EQ(i - j, static_cast<std::ptrdiff_t>(a - b), k + "/difference", i, j);
    CHECK((a < b) == (i < j), k + "/<", i, j); CHECK((a <= b) == (i <= j), k + "/<=", i, j);
    CHECK((a > b) == (i > j), k + "/>", i, j); CHECK((a >= b) == (i >= j), k + "/>=", i, j);
    CHECK((a == b) == (i == j), k + "/==", i, j); CHECK((a != b) == (i != j), k + "/!=", i, j);
    CHECK(a + d == b, k + "/it+n", i, j); CHECK(d + a == b, k + "/n+it", i, j);
    CHECK(a - static_cast<D>(-d) == b, k + "/it-n", i, j); CHECK(b - d == a, k + "/it-n2", i, j);
    auto x = a; auto& rx = (x += d); CHECK(&rx == &x && x == b, k + "/+=", i, j);
    auto y = b; auto& ry = (y -= d); CHECK(&ry == &y && y == a, k + "/-=", i, j);
    CHECK(a == at(i) && b == at(j), k + "/operands-changed");
    if (j < n) CHECK_EQ(conv<V>(s[static_cast<std::size_t>(j)]), a[d], k + "/[]", i, j);
    // other offset types
    if (j >= i) { CHECK(a + static_cast<unsigned char>(std::min<D>(d, 255)) == at(i + std::min<D>(d, 255)), k + "/+uchar"); CHECK(b - static_cast<std::size_t>(d) == a, k + "/-size_t", i, j); CHECK(a + static_cast<std::size_t>(d) == b, k + "/+size_t"); auto z = b; z -= static_cast<unsigned>(d); CHECK(z == a, k + "/-=unsigned"); }
  }
  std::vector<V> srt; for (auto const& x : s) srt.push_back(conv<V>(x));
  if (std::is_sorted(srt.begin(), srt.end()) && n) {
    auto const& w = srt[c.r.below(srt.size())];
    CHECK(std::lower_bound(at(0), at(n), w) == at(std::lower_bound(srt.begin(), srt.end(), w) - srt.begin()), k + "/lower_bound");
    CHECK(std::upper_bound(at(0), at(n), w) == at(std::upper_bound(srt.begin(), srt.end(), w) - srt.begin()), k + "/upper_bound");
  }
  c.count("laws", 12 * 14);
}
template <typename At>
void mutating(vf::ctx& c, seq& s, At const& at, char const* k0) {
  auto const n = static_cast<std::ptrdiff_t>(s.size());
  std::string const k = k0;
  seq const before = s;
  auto want = before; std::sort(want.begin(), want.end());
  std::sort(at(0), at(n)); CHECK_EQ(want, s, k + "/sort");
  std::reverse(at(0), at(n)); std::reverse(want.begin(), want.end()); CHECK_EQ(want, s, k + "/reverse");
  if (n) {
    auto const m = c.r.range(0, n);
    std::rotate(at(0), at(m), at(n)); std::rotate(want.begin(), want.begin() + m, want.end()); CHECK_EQ(want, s, k + "/rotate");
    std::nth_element(at(0), at(m), at(n)); if (m < n) { auto w2 = want; std::sort(w2.begin(), w2.end()); CHECK_EQ(w2[static_cast<std::size_t>(m)], s[static_cast<std::size_t>(m)], k + "/nth_element"); }
  }
  s = before;
  auto const e = std::unique(at(0), at(n)); auto w = before; auto const we = std::unique(w.begin(), w.end());
  CHECK(e == at(we - w.begin()), k + "/unique"); CHECK(std::equal(w.begin(), we, s.begin()), k + "/unique-values");
  s = before;
}

seq make(vf::rng& r) {
  auto const n = r.size(60);
  seq s;
  for (std::size_t i = 0; i < n; ++i) s.push_back(gen::word(r, 6));
  if (r.chance(1, 3)) std::sort(s.begin(), s.end());
  return s;
}
}  // namespace

SCENARIO(facade, 4000, 120000) {
  CHECK((std::is_same_v<std::iterator_traits<ra>::value_type, std::string> && std::is_same_v<std::iterator_traits<ra>::reference, std::string&>), "traits");
  bad = 0; prim = 0;
  auto s = make(c.r);
  seq const orig = s;
  if (s.size() > 1) c.distinct(vf::hstr(vf::str(s)));
  auto AT = [&](auto tag) { return [&](std::ptrdiff_t i) { return typename decltype(tag)::type{s, i}; }; };
#define FLAV(T) AT(std::type_identity<T>{})
  switch (c.idx % 6) {
    case 0: {
      CHECK((is_cat<ra, std::random_access_iterator_tag>), "ra/category");
      auto at = FLAV(ra); forward_laws(c, s, at, "ra"); bidi_laws(c, s, at, "ra"); ra_laws(c, s, at, "ra"); mutating(c, s, at, "ra");
      if (!s.empty()) { *at(0) = "written"; CHECK_EQ(std::string("written"), s[0], "ra/write"); at(0)[static_cast<std::ptrdiff_t>(s.size()) - 1] = "last"; CHECK_EQ(std::string("last"), s.back(), "ra/[]-write"); s = orig; }
      break;
    }
    case 1: {
      CHECK((is_cat<ra_val, std::random_access_iterator_tag>), "ra_val/category");
      auto at = FLAV(ra_val); forward_laws(c, s, at, "ra_val"); bidi_laws(c, s, at, "ra_val"); ra_laws(c, s, at, "ra_val");
      break;
    }
    case 2: {
      CHECK((is_cat<bidi, std::bidirectional_iterator_tag>), "bidi/category");
      auto at = FLAV(bidi); forward_laws(c, s, at, "bidi"); bidi_laws(c, s, at, "bidi");
      break;
    }
    case 3: {
      CHECK((is_cat<fwd, std::forward_iterator_tag>), "fwd/category"); CHECK((is_cat<dist, std::forward_iterator_tag>), "dist/category");
      auto at = FLAV(fwd); forward_laws(c, s, at, "fwd");
      auto at2 = FLAV(dist); forward_laws(c, s, at2, "dist");
      CHECK((is_cat<once, std::input_iterator_tag>), "once/category");
      auto at3 = FLAV(once);
      std::vector<std::string> got; for (auto it = at3(0); it != at3(static_cast<std::ptrdiff_t>(s.size()));) { got.push_back(*it); if (c.r.chance(1, 2)) ++it; else it++; }
      CHECK_EQ(s, got, "once/traversal");
      CHECK(std::is_void_v<decltype(std::declval<once&>()++)>, "once/post-increment-returns-void");
      break;
    }
    case 4: {
      CHECK((is_cat<wvec, std::random_access_iterator_tag>), "wvec/category"); CHECK((is_cat<wptr, std::random_access_iterator_tag>), "wptr/category");
      auto at = [&](std::ptrdiff_t i) { return wvec{s.begin() + i}; };
      forward_laws(c, s, at, "wvec"); bidi_laws(c, s, at, "wvec"); ra_laws(c, s, at, "wvec"); mutating(c, s, at, "wvec");
      auto at2 = [&](std::ptrdiff_t i) { return wptr{s.data() + i}; };
      forward_laws(c, s, at2, "wptr"); bidi_laws(c, s, at2, "wptr"); ra_laws(c, s, at2, "wptr");
      break;
    }
    default: {
#ifndef VF_FALLBACK
      CHECK((is_cat<wlist, std::bidirectional_iterator_tag>), "wlist/category"); CHECK((is_cat<step, std::bidirectional_iterator_tag>), "step/category"); CHECK((is_cat<sent, std::forward_iterator_tag>), "sent/category");
      std::list<std::string> l(s.begin(), s.end());
      auto at = [&](std::ptrdiff_t i) { return wlist{std::next(l.begin(), i)}; };
      forward_laws(c, s, at, "wlist"); bidi_laws(c, s, at, "wlist");
      auto at2 = FLAV(step); forward_laws(c, s, at2, "step"); bidi_laws(c, s, at2, "step");
      auto at3 = FLAV(sent); forward_laws(c, s, at3, "sent");
      seq got; for (auto it = at3(0); it != the_end{}; ++it) got.push_back(*it);
      CHECK_EQ(s, got, "sent/it!=end");
      got.clear(); for (auto it = at3(0); the_end{} != it; it++) got.push_back(*it);
      CHECK_EQ(s, got, "sent/end!=it");
      auto const n = static_cast<std::ptrdiff_t>(s.size()); auto const i = c.r.range(0, n);
      CHECK((at3(i) == the_end{}) == (i == n), "sent/==", i); CHECK((the_end{} == at3(i)) == (i == n), "sent/==-left", i);
      CHECK((at3(i) != the_end{}) == (i != n), "sent/!=", i); CHECK((the_end{} != at3(i)) == (i != n), "sent/!=-left", i);
#endif
      break;
    }
  }
  CHECK_EQ(orig, s, "sequence-changed");
  CHECK_EQ(std::uint64_t{0}, bad, "primitive-called-outside-sequence");
  c.count("primitive-calls", prim);
  if (c.want_sample()) c.sample(vf::str(s));
}

// distances and offsets beyond 16 bit
SCENARIO(large, 8, 100) {
  bad = 0;
  auto const n = c.r.pick({32768L, 65535L, 65536L, 65537L, 70000L});
  seq s(static_cast<std::size_t>(n));
  auto go = [&](auto at, char const* k) {
    CHECK_EQ(n, at(n) - at(0), "large-difference", k); CHECK_EQ(-n, at(0) - at(n), "large-difference", k);
    CHECK(at(0) + n == at(n) && at(n) - n == at(0), "large-offset", k, n);
    auto it = at(0); it += n; CHECK(it == at(n) && !(it == at(n - 32768)) && at(0) < it, "large-+=", k, n); it -= n - 1; CHECK(it == at(1), "large--=", k, n);
    CHECK(&at(0)[n - 1] == &s.back(), "large-[]", k, n);
    std::ptrdiff_t i = 0; for (auto q = at(0); q != at(n); ++q, ++i) CHECK(i < n && &*q == &s[static_cast<std::size_t>(i)], "large-walk", k, i);
    CHECK_EQ(n, i, "large-walk", k);
    CHECK_EQ(n, std::distance(at(0), at(n)), "large-distance", k);
  };
  go([&](std::ptrdiff_t i) { return ra{s, i}; }, "ra");
  go([&](std::ptrdiff_t i) { return wvec{s.begin() + i}; }, "wvec");
  CHECK_EQ(std::uint64_t{0}, bad, "primitive-called-outside-sequence");
  c.count("laws", 8);
}
