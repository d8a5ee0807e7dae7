// Integer arguments of every width vs. a decimal oracle in 128 bits.
#include "gen.h"
#include "utl/parser/arg_parser.h"

using utl::cstr;
namespace {
using i128 = __int128;
std::string dec(i128 v) {
  if (v == 0) return "0";
  bool const neg = v < 0;
  unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
  std::string s;
  for (; u; u /= 10) s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
  return neg ? "-" + s : s;
}
template <typename T> constexpr char const* name();
#define N(x) template <> constexpr char const* name<x>() { return #x; }
N(signed char) N(unsigned char) N(char) N(short) N(unsigned short) N(int) N(unsigned) N(long) N(unsigned long) N(long long) N(unsigned long long)
#undef N
template <typename T> using lim = std::numeric_limits<T>;

// text denotes v at its start; rest follows (not starting with a digit)
template <typename T>
void good(vf::ctx& c, std::string const& num, T const v, std::string const& rest) {
  auto const s = num + rest;
  gen::tight t{s};
  vf::note(vf::cat(name<T>(), " text=", s));
  {
    cstr x{t.p, t.n};
    T got = static_cast<T>(77);
    bool const ok = utl::parse_arg(x, got);
    CHECK(got == v, "value", name<T>(), " text=", s, " got ", dec(got));
    CHECK(x.str == t.p + num.size() && x.len == rest.size(), "cursor", name<T>(), " text=", s, " left ", x.len);
    CHECK_EQ(rest.empty(), ok, "result", name<T>(), " text=", s);
  }
  {
    cstr x{t.p, t.n};
    T got = static_cast<T>(77);
    bool const ok = utl::parse_arg(x, got, static_cast<T>(13));
    CHECK(got == v && ok == rest.empty() && x.len == rest.size(), "with default", name<T>(), " text=", s, " got ", dec(got));
  }
  cstr const x{t.p, t.n};
  CHECK(utl::parse<T>(x) == v, "parse", name<T>(), " text=", s);
  CHECK(utl::parse<T>(x, static_cast<T>(13)) == v, "parse default", name<T>(), " text=", s);
  try {
    auto const got = utl::parse_verify<T>(x);
    CHECK(rest.empty(), "parse_verify accepted", name<T>(), " text=", s);
    CHECK(got == v, "parse_verify", name<T>(), " text=", s);
  } catch (std::exception const&) {
    CHECK(!rest.empty(), "parse_verify rejected", name<T>(), " text=", s);
    c.count("rejected");
  }
  {
    cstr y{t.p, t.n};
    T got = static_cast<T>(77);
    auto& r = (y >> got);
    CHECK(&r == &y && got == v && y.str == t.p + num.size() && y.len == rest.size(), "stream", name<T>(), " text=", s);
  }
  c.count("values");
}
// no digits at the place
template <typename T>
void bad(vf::ctx& c, std::string const& s, T const def) {
  gen::tight t{s};
  vf::note(vf::cat(name<T>(), " bad text=", s));
  for (int k = 0; k < 2; ++k) {
    cstr x{t.p, t.n};
    if (k && t.n) break;
    if (k) x = cstr{};
    T got = static_cast<T>(77);
    CHECK(!utl::parse_arg(x, got, def), "bad/result", name<T>(), " text=", s);
    CHECK(got == def, "bad/default", name<T>(), " text=", s, " got ", dec(got));
  }
  cstr x{t.p, t.n};
  T got = static_cast<T>(77);
  CHECK(!utl::parse_arg(x, got) && got == 0, "bad/zero", name<T>(), " text=", s, " got ", dec(got));
  cstr const y{t.p, t.n};
  CHECK(utl::parse<T>(y) == 0, "bad/parse", name<T>(), " text=", s);
  CHECK(utl::parse<T>(y, def) == def, "bad/parse default", name<T>(), " text=", s);
  bool threw = false;
  try { (void)utl::parse_verify<T>(y); } catch (std::exception const&) { threw = true; }
  CHECK(threw, "bad/parse_verify", name<T>(), " text=", s);
  c.count("no-digits");
}

template <typename T>
std::string spell(vf::rng& r, T v) {
  auto d = dec(static_cast<i128>(v));
  std::string sign;
  if (d[0] == '-') { sign = "-"; d.erase(0, 1); }
  else if (r.chance(1, 4)) sign = "+";
  else if (v == 0 && lim<T>::is_signed && r.chance(1, 4)) sign = "-";
  if (r.chance(1, 4)) d.insert(0, r.chance(1, 8) ? r.below(2000) : 1 + r.below(8), '0');
  return sign + d;
}
std::string rest(vf::rng& r) {
  if (r.chance(1, 2)) return {};
  auto s = gen::bytes(r, 1 + r.below(5), std::string_view{",;. \n-+a/:\0\xff""0x", 14}, 70);
  if (s[0] >= '0' && s[0] <= '9') s[0] = '/' + (r.chance(1, 2) ? 0 : 11);  // '/' or ':'
  return s;
}
template <typename T>
T value(vf::rng& r) {
  i128 const lo = lim<T>::min(), hi = lim<T>::max();
  i128 v;
  switch (r.below(6)) {
    case 0: v = lo + static_cast<i128>(r.below(12)); break;
    case 1: v = hi - static_cast<i128>(r.below(12)); break;
    case 2: { i128 p = 1; for (auto n = r.below(20); n; --n) p *= 10; v = p + r.range(-2, 2); if (r.chance(1, 2)) v = -v; break; }
    case 3: v = (i128{1} << r.below(64)) + r.range(-2, 2); if (r.chance(1, 2)) v = -v; break;
    case 4: v = r.range(-300, 300); break;
    default: v = static_cast<i128>(static_cast<T>(r.next())); break;
  }
  return v < lo ? lim<T>::min() : v > hi ? lim<T>::max() : static_cast<T>(v);
}
template <typename F>
void with_type(std::uint64_t i, F&& f) {
  switch (i % 11) {
    case 0: f(static_cast<signed char>(0)); break;
    case 1: f(static_cast<unsigned char>(0)); break;
    case 2: f(char{}); break;
    case 3: f(short{}); break;
    case 4: f(static_cast<unsigned short>(0)); break;
    case 5: f(0); break;
    case 6: f(0U); break;
    case 7: f(0L); break;
    case 8: f(0UL); break;
    case 9: f(0LL); break;
    default: f(0ULL); break;
  }
}
}  // namespace

SCENARIO(random_values, 40000, 3000000) {
  with_type(c.r.next(), [&]<typename T>(T) {
    auto const v = value<T>(c.r);
    auto const n = spell(c.r, v);
    auto const e = rest(c.r);
    good<T>(c, n, v, e);
    c.distinct(vf::hcomb(vf::hstr(n + e), sizeof(T) * 2 + lim<T>::is_signed));
    if (c.want_sample(6)) c.sample(vf::cat(name<T>(), " ", n, " then ", e), 6);
  });
}
SCENARIO(every_narrow_value, 512, 512) {  // all 8-bit and all 16-bit values
  for (int k = 0; k < 128; ++k) {
    auto const i = static_cast<int>(c.idx * 128 + k);
    auto const s16 = static_cast<short>(i);
    auto const u16 = static_cast<unsigned short>(i);
    cstr x;
    auto a = dec(s16), b = dec(u16);
    gen::tight ta{a}, tb{b};
    short gs = 1; unsigned short gu = 1;
    x = cstr{ta.p, ta.n};
    CHECK(utl::parse_arg(x, gs) && gs == s16 && x.len == 0, "narrow", a);
    x = cstr{tb.p, tb.n};
    CHECK(utl::parse_arg(x, gu) && gu == u16 && x.len == 0, "narrow", b);
    if (i < 256) { good<signed char>(c, dec(static_cast<signed char>(i)), static_cast<signed char>(i), ""); good<unsigned char>(c, dec(i), static_cast<unsigned char>(i), ""); good<char>(c, dec(static_cast<char>(i)), static_cast<char>(i), ","); }
    c.count("values", 2);
  }
  c.distinct(c.idx);
}
SCENARIO(limits, 11 * 12, 11 * 12) {
  with_type(c.idx, [&]<typename T>(T) {
    auto const hi = dec(static_cast<i128>(lim<T>::max())), lo = dec(static_cast<i128>(lim<T>::min()));
    std::string const z(c.idx / 11 * 3, '0');
    good<T>(c, z + hi, lim<T>::max(), "");
    good<T>(c, "+" + z + hi, lim<T>::max(), " ");
    if (lim<T>::is_signed) { good<T>(c, "-" + z + lo.substr(1), lim<T>::min(), ""); good<T>(c, "-" + z + lo.substr(1), lim<T>::min(), "x"); good<T>(c, "-" + z + "0", 0, ""); }
    good<T>(c, z + "0", 0, "");
    c.distinct(c.idx);
  });
}
SCENARIO(long_texts, 22, 220) {  // longer runs of zeros and longer rests than narrow counters hold
  with_type(c.idx, [&]<typename T>(T) {
    auto const n = c.r.pick({255U, 256U, 257U, 32768U, 65535U, 65536U, 65537U, 70000U});
    auto const v = value<T>(c.r);
    auto const d = dec(v);
    std::string const z(n, '0');
    auto const neg = d[0] == '-';
    good<T>(c, (neg ? "-" : "") + z + d.substr(neg), v, c.r.chance(1, 2) ? "" : ",");
    good<T>(c, d, v, "x" + std::string(n, '7'));
    c.distinct(vf::hcomb(c.idx, n));
  });
}
SCENARIO(no_digits, 12000, 500000) {
  with_type(c.r.next(), [&]<typename T>(T) {
    auto const def = value<T>(c.r);
    std::string s;
    switch (c.r.below(5)) {
      case 0: break;
      case 1: s = rest(c.r); break;
      case 2: s = "+"; break;
      case 3: s = lim<T>::is_signed ? "-" : "-" + std::to_string(c.r.below(100)); break;
      default: s = c.r.pick({" ", "x", "/", ":", "\n", ".", ",", "\xff", "\xb1", "\xb9"}); s += std::to_string(c.r.below(100)); break;
    }
    if (!s.empty() && (s[0] == '-' || s[0] == '+') && s.size() > 1 && !(s[0] == '-' && !lim<T>::is_signed)) s = s.substr(0, 1) + "x" + s.substr(1);
    if (s.size() > 1 && s[0] == '+') s[1] = 'x';
    bad<T>(c, s, def);
    c.distinct(vf::hcomb(vf::hstr(s), sizeof(T) + lim<T>::is_signed));
  });
}
SCENARIO(out_of_range_and_junk, 20000, 1500000) {  // no undefined behaviour, cursor stays inside
  with_type(c.r.next(), [&]<typename T>(T) {
    auto& r = c.r;
    std::string s;
    if (r.chance(1, 2)) { s = r.pick({"", "-", "+"}); for (auto n = r.below(r.chance(1, 10) ? 500 : 30); n; --n) s += static_cast<char>('0' + r.below(10)); s += rest(r); }
    else s = gen::bytes(r, r.below(20), "0123456789-+", r.pick({50U, 90U}));
    gen::tight t{s};
    cstr x{t.p, t.n};
    vf::note(vf::cat(name<T>(), " junk text=", s));
    T got;
    bool const ok = utl::parse_arg(x, got);
    CHECK(x.str >= t.p && x.str + x.len == t.p + t.n, "junk/cursor", name<T>(), " text=", s);
    if (ok) CHECK(x.len == 0, "junk/success with rest", name<T>(), " text=", s);
    (void)utl::parse<T>(cstr{t.p, t.n});
    (void)utl::parse<T>(cstr{t.p, t.n}, T{5});
    try { (void)utl::parse_verify<T>(cstr{t.p, t.n}); } catch (std::exception const&) {}
    c.count("junk");
    c.distinct(vf::hcomb(vf::hstr(s), sizeof(T)));
  });
}
SCENARIO(chained, 4000, 200000) {  // a >> , >> b >> ...
  auto& r = c.r;
  auto const a = value<int>(r); auto const b = value<unsigned long>(r); auto const d = value<signed char>(r);
  auto s = spell(r, a) + ",", s2 = spell(r, b) + ";", s3 = spell(r, d);
  auto const all = s + s2 + s3;
  gen::tight t{all};
  cstr x{t.p, t.n};
  int ga; unsigned long gb; signed char gd;
  x >> ga >> utl::expect_char<','>{} >> gb >> utl::expect_char<';'>{} >> gd;
  CHECK(ga == a && gb == b && gd == d && x.len == 0, "chained", "text=", all);
  c.count("chained");
}
