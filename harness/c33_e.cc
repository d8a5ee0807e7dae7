// Sources and element types with quirks of their own: proxies, elements that
// can be built from their own container, pairs with constant keys, elements
// without default construction or assignment, arrays, strings, spans, input
// iterators, ranges ended by a sentinel.
#define VF_NO_MAIN
#include "c33_pipes.h"
#include <any>
#include <iterator>
#include <map>
#include <span>
#include <sstream>
#include <string_view>
using namespace c33;
namespace {
// a value tree: a node can be made from a vector of nodes, so that
// vector<node>{vector<node>} means something else than vector<node>(vector<node>)
struct node {
  node(int x) : v{x} {}
  node(std::vector<node> c) : v{-1}, children{std::move(c)} {}
  int v;
  std::vector<node> children;
};
// neither default constructible nor assignable
struct fixed {
  explicit fixed(int x) : p{std::make_unique<int>(x)} {}
  fixed(fixed const& o) : p{std::make_unique<int>(*o.p)} {}
  fixed(fixed&& o) : p{std::make_unique<int>(*o.p)} {}
  fixed& operator=(fixed const&) = delete;
  friend bool operator==(fixed const& a, fixed const& b) { return *a.p == *b.p; }
  std::unique_ptr<int> p;
};
std::vector<node> nodes(std::vector<int> const& s) { std::vector<node> v; for (auto x : s) v.emplace_back(x); return v; }
}  // namespace
SCENARIO(proxies, 1500, 40000) {
  std::vector<bool> s(some_size(c));
  auto const runs = c.r.chance(1, 2);
  for (std::size_t i = 0; i < s.size(); ++i) s[i] = runs && i && !c.r.chance(1, 4) ? bool{s[i - 1]} : c.r.chance(1, 2);
  auto const orig = s;
  auto const& cs = s;
  std::vector<bool> un;
  for (bool x : s) if (un.empty() || un.back() != x) un.push_back(x);
  auto bools = [](auto const& v) { std::vector<bool> r; for (bool x : v) r.push_back(x); return r; };
  std::vector<bool> flipped; for (bool x : s) flipped.push_back(!x);
  std::vector<bool> unf; for (bool x : un) unf.push_back(!x);
  auto const flip = [](bool x) { return !x; };
  auto const each = [&](auto mk, std::string const& k) {
    CHECK_EQ(orig, bools(mk() | utl::vec()), "proxy-vec/" + k, orig);
    CHECK_EQ(un, bools(mk() | utl::unique() | utl::vec()), "proxy-unique/" + k, orig);
    CHECK_EQ(unf, bools(mk() | utl::unique() | utl::transform(flip) | utl::vec()), "proxy-unique-transform/" + k, orig);
    CHECK_EQ(unf, bools(mk() | utl::transform(flip) | utl::unique() | utl::vec()), "proxy-transform-unique/" + k, orig);
    CHECK_EQ(flipped, bools(mk() | utl::transform(flip) | utl::vec()), "proxy-transform/" + k, orig);
    CHECK_EQ(static_cast<std::size_t>(std::count(orig.begin(), orig.end(), true)), (mk() | utl::remove_if(flip) | utl::vec()).size(), "proxy-remove_if/" + k, orig);
    CHECK_EQ(static_cast<std::size_t>(std::count(orig.begin(), orig.end(), true)), mk() | utl::sum(), "proxy-sum/" + k, orig);
    CHECK_EQ(static_cast<std::size_t>(std::count(orig.begin(), orig.end(), true)), mk() | utl::count([](bool x) { return x; }), "proxy-count/" + k, orig);
    std::vector<bool> it;
    for (bool x : mk() | utl::take_while(flip) | utl::iterable()) it.push_back(x);
    CHECK_EQ(std::vector<bool>(static_cast<std::size_t>(std::find(orig.begin(), orig.end(), true) - orig.begin())), it, "proxy-take_while/" + k, orig);
    CHECK_EQ(std::find(orig.begin(), orig.end(), true) != orig.end(), (mk() | utl::find([](bool x) { return x; })).has_value(), "proxy-find/" + k);
    CHECK_EQ(orig, s, "proxy-source-modified/" + k);
    c.count("pipelines", 10);
  };
  each([&] { return utl::all(s); }, "lvalue");
  each([&] { return utl::all(cs); }, "const");
  each([&] { return utl::all(std::vector<bool>(orig)); }, "temporary");
  each([&] { return utl::all(s.begin(), s.end()); }, "iterators");
  c.distinct(vf::hcomb(s.size(), un.size()));
}
SCENARIO(self_like_elements, 600, 15000) {
  auto const s = source_values(c, some_size(c));
  auto const v = [](node const& n) { return n.children.empty() ? n.v : -1000; };
  CHECK_EQ(s, (utl::all(nodes(s)) | utl::transform(v) | utl::vec()), "node-temporary");
  auto ns = nodes(s);
  CHECK_EQ(s, (utl::all(ns) | utl::transform(v) | utl::vec()), "node-lvalue");
  CHECK_EQ(s, (utl::all(std::move(ns)) | utl::remove_if([](node const&) { return false; }) | utl::transform(v) | utl::vec()), "node-moved");
  CHECK_EQ(s.size(), nodes(s) | utl::count([](node const&) { return true; }), "node-count");
  auto const out = utl::all(nodes(s)) | utl::vec();
  CHECK(out.size() == s.size(), "node-vec", s.size(), " got ", out.size());
  auto const d = utl::all(std::list<node>(out.begin(), out.end())) | utl::emplace_back<std::deque<node>>();
  CHECK(d.size() == s.size(), "node-emplace_back");
  auto const anys = [&] { std::vector<std::any> a; for (auto x : s) a.emplace_back(x); return a; };
  auto const ai = [](std::any const& a) { auto const* p = std::any_cast<int>(&a); return p ? *p : -1000; };
  CHECK_EQ(s, (utl::all(anys()) | utl::transform(ai) | utl::vec()), "any-temporary");
  CHECK_EQ(s.size(), (utl::all(anys()) | utl::vec()).size(), "any-vec");
  c.count("pipelines", 8);
  c.distinct(vf::hcomb(s.size(), 77));
}
SCENARIO(odd_elements, 600, 15000) {
  auto const s = source_values(c, some_size(c));
  std::vector<int> un;
  for (auto x : s) if (un.empty() || un.back() != x) un.push_back(x);
  std::vector<fixed> fs; for (auto x : s) fs.emplace_back(x);
  auto const v = [](fixed const& f) { return *f.p; };
  CHECK_EQ(un, (utl::all(fs) | utl::unique() | utl::transform(v) | utl::vec()), "fixed-unique", s);
  CHECK_EQ(un, (utl::all(std::vector<fixed>(fs)) | utl::unique() | utl::transform(v) | utl::vec()), "fixed-unique-temporary", s);
  CHECK_EQ(un, (utl::all(s) | utl::transform([](int x) { return fixed{x}; }) | utl::unique() | utl::transform(v) | utl::vec()), "fixed-unique-made", s);
  // equal neighbours in a multimap, whose elements have constant keys
  std::multimap<int, int> mm;
  for (std::size_t i = 0; i < s.size(); ++i) mm.emplace(s[i], static_cast<int>(i) % 2);
  std::vector<std::pair<int, int>> um;
  for (auto const& [k, x] : mm) if (um.empty() || um.back() != std::pair{k, x}) um.emplace_back(k, x);
  std::vector<std::pair<int, int>> got;
  utl::all(mm) | utl::unique() | utl::for_each([&](auto const& e) { got.emplace_back(e.first, e.second); });
  CHECK_EQ(um.size(), got.size(), "multimap-unique", s);
  CHECK(um == got, "multimap-unique-values", s);
  c.count("pipelines", 4);
  c.distinct(vf::hcomb(s.size(), un.size()));
}
SCENARIO(odd_sources, 800, 20000) {
  auto const s = source_values(c, some_size(c));
  params ps;
  for (auto& p : ps) p = {static_cast<int>(c.r.below(16)), static_cast<int>(c.r.below(16)), static_cast<unsigned>(c.r.below(1000))};
  auto const T = [&](int x) { return fT(x, ps[0]); };
  auto const R = [&](int x) { return fR(x, ps[1]); };
  auto const want = eager(s, "TRU", ps);
  auto const go = [&](auto mk, char const* k) {
    CHECK_EQ(want, (mk() | utl::transform(T) | utl::remove_if(R) | utl::unique() | utl::vec()), std::string("source/") + k, s);
    CHECK_EQ(s.size(), mk() | utl::count([](int) { return true; }), std::string("source-count/") + k, s);
    c.count("pipelines", 2);
  };
  auto v = s;
  std::span<int> const sp{v};
  go([&] { return utl::all(sp); }, "span");
  go([&] { return utl::all(v.data(), v.data() + v.size()); }, "pointers");
  std::array<int, 5> a{}; for (std::size_t i = 0; i < 5; ++i) a[i] = i < s.size() ? s[i] : 1;
  std::vector<int> const av(a.begin(), a.end());
  int ca[5]; std::copy(a.begin(), a.end(), ca);
  CHECK_EQ(eager(av, "TRU", ps), (utl::all(a) | utl::transform(T) | utl::remove_if(R) | utl::unique() | utl::vec()), "source/array");
  CHECK_EQ(eager(av, "TRU", ps), (utl::all(ca) | utl::transform(T) | utl::remove_if(R) | utl::unique() | utl::vec()), "source/c-array");
  CHECK_EQ(eager(av, "TRU", ps), (utl::all(std::array<int, 5>(a)) | utl::transform(T) | utl::remove_if(R) | utl::unique() | utl::vec()), "source/array-temporary");
  // single-pass input
  std::string txt; for (auto x : s) txt += std::to_string(x) + " ";
  {
    std::istringstream is{txt};
    CHECK_EQ(want, (utl::all(std::istream_iterator<int>{is}, std::istream_iterator<int>{}) | utl::transform(T) | utl::remove_if(R) | utl::unique() | utl::vec()), "source/istream", s);
  }
  {
    std::istringstream is{txt};
    std::vector<int> got;
    for (auto x : utl::all(std::istream_iterator<int>{is}, std::istream_iterator<int>{}) | utl::iterable()) got.push_back(x);
    CHECK_EQ(s, got, "source/istream-iterable");
  }
  // text
  std::string str; for (auto x : s) str += static_cast<char>('a' + x % 16);
  std::string_view const sv = str;
  std::string const up = [&] { std::string r; for (auto ch : str) if (ch != 'c') r += static_cast<char>(ch - 32); return r; }();
  auto const low = [](char ch) { return ch == 'c'; };
  auto const upper = [](char ch) { return static_cast<char>(ch - 32); };
  auto const txtof = [](std::vector<char> const& x) { return std::string(x.begin(), x.end()); };
  CHECK_EQ(up, txtof(utl::all(str) | utl::remove_if(low) | utl::transform(upper) | utl::vec()), "text/string");
  CHECK_EQ(up, txtof(utl::all(sv) | utl::remove_if(low) | utl::transform(upper) | utl::vec()), "text/view");
  CHECK_EQ(up, txtof(utl::all(std::string(str)) | utl::remove_if(low) | utl::transform(upper) | utl::vec()), "text/temporary");
  CHECK_EQ(up, (utl::all(std::string_view(str)) | utl::remove_if(low) | utl::transform(upper) | utl::accumulate([](std::string acc, char ch) { return acc + ch; }, std::string{})), "text/accumulate");
  c.count("pipelines", 9);
  c.distinct(vf::hcomb(s.size(), want.size()));
}
