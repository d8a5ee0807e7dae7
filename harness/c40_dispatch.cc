// C40: match / overloaded / init_from
#include "vf.h"

#include <variant>

#include "utl/match.h"
#include "utl/overloaded.h"

namespace {
// ------------------------------------------------------------ hierarchy
struct root { virtual ~root() = default; int tag = 0; };
struct A : root { int a = 1; };
struct B : root { int b = 2; };
struct A1 : A { int a1 = 3; };
struct A11 final : A1 { int a11 = 4; };
struct iface { virtual ~iface() = default; int i = 9; };
struct BI : B, iface { int bi = 5; };         // second base: pointer adjustment
struct IB : iface, B { int ib = 6; };         // root is not the first base
struct V1 : virtual root { int v1 = 7; };
struct V2 : virtual root { int v2 = 8; };
struct VV : V1, V2 { int vv = 9; };
struct priv_base : root { int p = 1; };
struct P : root, private iface { int p = 2; };  // not convertible to iface*

struct seen_t {
  int calls = 0, which = -1;
  void const* most_derived = nullptr;
};

template <typename D> void const* mdp(D const* p) { return dynamic_cast<void const*>(p); }

struct tok {  // result with identity
  int v;
  std::unique_ptr<int> p;
};

template <typename T, int I>
auto handler(seen_t& s) {
  return [&s](T const* x) { ++s.calls; s.which = I; s.most_derived = mdp(x); return 100 + I; };
}
template <typename T, int I>
auto handler_mut(seen_t& s) {
  return [&s, n = 0](T* x) mutable { ++n; s.calls += n; s.which = I; s.most_derived = mdp(x); return tok{100 + I, std::make_unique<int>(I)}; };
}

template <typename Dyn, typename T>
constexpr bool fits = std::is_convertible_v<Dyn*, T*>;



// the candidate handler types, indexed
template <typename Dyn>
constexpr std::array<bool, 10> fit_table{fits<Dyn, A>, fits<Dyn, B>, fits<Dyn, A1>, fits<Dyn, A11>, fits<Dyn, iface>, fits<Dyn, BI>, fits<Dyn, V1>, fits<Dyn, V2>, fits<Dyn, VV>, fits<Dyn, root>};

struct obj { std::unique_ptr<root> o; std::array<bool, 10> fit; char const* name; };
template <typename D> obj mk(char const* n) { return {std::make_unique<D>(), fit_table<D>, n}; }
obj make(int k) {
  switch (k) {
    case 0: return mk<A>("A"); case 1: return mk<B>("B"); case 2: return mk<A1>("A1"); case 3: return mk<A11>("A11");
    case 4: return mk<BI>("BI"); case 5: return mk<IB>("IB"); case 6: return mk<V1>("V1"); case 7: return mk<V2>("V2");
    case 8: return mk<VV>("VV"); case 9: return mk<P>("P"); case 10: return mk<root>("root"); default: return mk<priv_base>("priv_base");
  }
}
template <int> struct at;
template <> struct at<0> { using t = A; }; template <> struct at<1> { using t = B; }; template <> struct at<2> { using t = A1; };
template <> struct at<3> { using t = A11; }; template <> struct at<4> { using t = iface; }; template <> struct at<5> { using t = BI; };
template <> struct at<6> { using t = V1; }; template <> struct at<7> { using t = V2; }; template <> struct at<8> { using t = VV; }; template <> struct at<9> { using t = root; };

template <int... Is>
void try_order(vf::ctx& c, obj const& o) {
  int want = -1;
  ((want == -1 && o.fit[Is] ? void(want = Is) : void()), ...);
  auto const order = vf::str(std::vector<int>{Is...}) + " on " + o.name;
  auto judge = [&](seen_t const& s, bool threw, int res, char const* k) {
    if (want == -1) {
      CHECK(threw, std::string(k) + "/no-throw", order); CHECK_EQ(0, s.calls, std::string(k) + "/called-without-fit", order);
    } else {
      CHECK(!threw, std::string(k) + "/threw", order); CHECK_EQ(1, s.calls, std::string(k) + "/calls", order);
      CHECK_EQ(want, s.which, std::string(k) + "/handler", order); CHECK_EQ(100 + want, res, std::string(k) + "/result", order);
      CHECK(s.most_derived == mdp(o.o.get()), std::string(k) + "/object", order);
    }
    c.count("matches");
  };
  {
    seen_t s; int res = 0; bool threw = false;
    try { res = utl::match(static_cast<root const*>(o.o.get()), handler<typename at<Is>::t, Is>(s)...); } catch (std::runtime_error const&) { threw = true; }
    judge(s, threw, res, "const");
  }
  {
    seen_t s; int res = 0; bool threw = false;
    try { auto t = utl::match(o.o.get(), handler_mut<typename at<Is>::t, Is>(s)...); res = t.v; CHECK(t.p && *t.p == t.v - 100, "mutable/result-moved", order); } catch (std::runtime_error const&) { threw = true; }
    judge(s, threw, res, "mutable");
  }
  {  // named pointer and named handlers
    seen_t s; int res = 0; bool threw = false;
    root* p = o.o.get(); root* const p0 = p;
    auto hs = std::tuple{handler<typename at<Is>::t, Is>(s)...};
    try { res = std::apply([&](auto&... h) { return utl::match(p, h...); }, hs); } catch (std::runtime_error const&) { threw = true; }
    CHECK(p == p0, "named/pointer-changed", order);
    judge(s, threw, res, "named");
  }
  c.distinct(vf::hstr(order));
}
}  // namespace

SCENARIO(match, 480, 4800) {
  auto const o = make(static_cast<int>(c.idx % 12));
  switch (c.idx / 12 % 4) {
    case 0:
      try_order<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>(c, o); try_order<9, 8, 7, 6, 5, 4, 3, 2, 1, 0>(c, o); try_order<3, 2, 0>(c, o); try_order<0, 2, 3>(c, o); try_order<2, 0, 3>(c, o);
      try_order<3>(c, o); try_order<9>(c, o); break;
    case 1:
      try_order<4, 1, 5>(c, o); try_order<1, 4, 5>(c, o); try_order<5, 4, 1>(c, o); try_order<5, 1, 4>(c, o); try_order<4>(c, o); try_order<1>(c, o); try_order<5, 9>(c, o); break;
    case 2:
      try_order<6, 7, 8>(c, o); try_order<8, 7, 6>(c, o); try_order<7, 6, 8>(c, o); try_order<7>(c, o); try_order<8, 0>(c, o); try_order<0, 8, 4, 9>(c, o); break;
    default:
      try_order<2, 4, 0, 7, 1>(c, o); try_order<7, 1, 2>(c, o); try_order<1, 7, 0, 3>(c, o); try_order<0>(c, o); try_order<2>(c, o); try_order<6>(c, o); try_order<3, 5, 8>(c, o); break;
  }
  if (c.idx % 12 == 0) {  // a null object fits nothing; a void handler; a handler that throws
    root* n = nullptr; seen_t s; bool threw = false;
    try { utl::match(n, handler<root, 9>(s), handler<A, 0>(s)); } catch (std::runtime_error const&) { threw = true; }
    CHECK(threw && s.calls == 0, "null");
    int cnt = 0;
    utl::match(o.o.get(), [&](B const*) { cnt += 100; }, [&](A const*) { ++cnt; }, [&](root const*) { cnt += 10; });
    CHECK_EQ(1, cnt, "void-handler");
    bool got = false;
    try { utl::match(o.o.get(), [&](A const*) -> int { ++cnt; throw 42; }, [&](root const*) -> int { cnt += 10; return 1; }); } catch (int v) { got = v == 42; }
    CHECK(got && cnt == 2, "throwing-handler", cnt);
  }
  if (c.want_sample()) c.sample(o.name);
}

// ------------------------------------------------------------ overloaded
namespace {
struct X { int v; };
struct Y { int v; };
struct Z { std::unique_ptr<int> p; };
}  // namespace

SCENARIO(overloaded, 800, 10000) {
  auto const n = static_cast<int>(c.r.range(-1000, 1000));
  std::vector<std::string> log;
  auto f = utl::overloaded{
      [&](int i) { log.push_back("int:" + std::to_string(i)); },
      [&](std::string const& s) { log.push_back("string:" + s); },
      [&](X const& x) { log.push_back("X:" + std::to_string(x.v)); },
      [&](Y& y) { log.push_back("Y:" + std::to_string(y.v)); ++y.v; },
      [&](double d) { log.push_back("double:" + std::to_string(d)); },
      [&](std::vector<int>&& v) { log.push_back("vec:" + std::to_string(v.size())); auto const t = std::move(v); }};
  Y y{n}; X x{n}; X const cx{n + 1}; std::string s = "s" + std::to_string(n); std::string const cs = s + "c"; double const d = n / 2.0; int i = n;
  std::vector<std::string> want;
  auto exp = [&](std::string const& w) { want.push_back(w); };
  for (int k = 0; k < 12; ++k) {
    switch (c.r.below(14)) {
      case 0: f(i); exp("int:" + std::to_string(i)); break;
      case 1: f(5); exp("int:5"); break;
      case 2: f(s); exp("string:" + s); break;
      case 3: f(cs); exp("string:" + cs); break;
      case 4: f(std::string("tmp")); exp("string:tmp"); break;
      case 5: f(x); exp("X:" + std::to_string(x.v)); break;
      case 6: f(cx); exp("X:" + std::to_string(cx.v)); break;
      case 7: exp("Y:" + std::to_string(y.v)); { auto const b = y.v; f(y); CHECK_EQ(b + 1, y.v, "overloaded/object"); } break;
      case 8: f(d); exp("double:" + std::to_string(d)); break;
      case 9: f(std::vector<int>(7)); exp("vec:7"); break;
      // no handler takes these types: ignored
      case 10: { Z z{std::make_unique<int>(3)}; f(z); CHECK(z.p && *z.p == 3, "overloaded/ignored-argument-touched"); f(std::move(z)); CHECK(z.p && *z.p == 3, "overloaded/ignored-argument-moved"); } break;
      case 11: f(nullptr); f(static_cast<void*>(nullptr)); break;
      case 12: f(std::set<int>{1}); f(std::optional<int>{4}); break;
      default: f(&i); f(&x); break;
    }
  }
  CHECK_EQ(want, log, "overloaded/calls");
  // variants: every alternative to its own handler, unhandled alternatives ignored
  std::variant<int, std::string, X, Z, char const*> v;
  log.clear(); want.clear();
  for (int k = 0; k < 8; ++k) {
    switch (c.r.below(5)) {
      case 0: v = n; exp("int:" + std::to_string(n)); break;
      case 1: v = s; exp("string:" + s); break;
      case 2: v = X{k}; exp("X:" + std::to_string(k)); break;
      case 3: v = Z{}; break;
      default: v = "literal"; break;
    }
    std::visit(f, v);
  }
  CHECK_EQ(want, log, "overloaded/visit");
  c.count("overloads", 20);
  c.distinct(vf::hstr(vf::str(want) + std::to_string(n)));
}
