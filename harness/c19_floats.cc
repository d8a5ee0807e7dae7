// Floating point arguments vs. long double / digit-exact oracle.
#include "gen.h"
#include "utl/parser/arg_parser.h"
#include <cmath>

using utl::cstr;
namespace {
// value denoted by [-]digits[.digits], correctly rounded to long double
long double denoted(std::string const& s) {
  auto x = s;
  if (x.back() == '.') x += '0';
  auto const p = x.find('.');
  if (p == 0) x.insert(0, "0");
  if (p == 1 && x[0] == '-') x.insert(1, "0");
  return std::strtold(x.c_str(), nullptr);
}
template <typename T>
void one(vf::ctx& c, std::string const& num, std::string const& rest) {
  auto const s = num + rest;
  auto const v = denoted(num);
  using L = std::numeric_limits<T>;
  if (std::fabs(v) > static_cast<long double>(L::max()) / 2) return;
  auto const digits = static_cast<long double>(num.size());
  auto const tol = (digits * 2 + 8) * static_cast<long double>(L::epsilon()) * std::fabs(v) +
                   digits * 16 * static_cast<long double>(L::denorm_min());
  gen::tight t{s};
  vf::note(vf::cat(sizeof(T) == 4 ? "float" : "double", " text=", s));
  auto near = [&](T got, char const* key) {
    CHECK(!std::isnan(got) && std::fabs(static_cast<long double>(got) - v) <= tol, key, sizeof(T) == 4 ? "float" : "double", " text=", s, " got ", got, " expected ", static_cast<double>(v));
  };
  T got = 77;
  {
    cstr x{t.p, t.n};
    bool const ok = utl::parse_arg(x, got);
    near(got, "value");
    CHECK(x.str == t.p + num.size() && x.len == rest.size(), "cursor", "text=", s, " left ", x.len);
    CHECK_EQ(rest.empty(), ok, "result", "text=", s);
  }
  near(utl::parse<T>(cstr{t.p, t.n}), "parse");
  try {
    near(utl::parse_verify<T>(cstr{t.p, t.n}), "parse_verify");
    CHECK(rest.empty(), "parse_verify accepted", "text=", s);
  } catch (std::exception const&) { CHECK(!rest.empty(), "parse_verify rejected", "text=", s); }
  {
    cstr x{t.p, t.n};
    T g2 = 77;
    x >> g2;
    near(g2, "stream");
    CHECK(x.len == rest.size(), "stream cursor", "text=", s);
  }
  c.count("values");
  c.distinct(vf::hcomb(vf::hstr(s), sizeof(T)));
}
std::string digits(vf::rng& r, std::size_t n) {
  std::string s;
  auto const k = r.below(7);
  auto const z = k == 5 ? r.below(n + 1) : 0;  // leading zeros, then any digits
  for (std::size_t i = 0; i < n; ++i) s += i < z ? '0' : k == 0 ? '0' : k == 1 ? '9' : k == 2 ? (i ? '0' : '1') : static_cast<char>('0' + r.below(10));
  return s;
}
std::size_t ndig(vf::rng& r) { return r.chance(1, 12) ? r.below(300) : r.chance(1, 3) ? r.below(45) : r.below(12); }
std::string number(vf::rng& r) {
  std::string s = r.chance(1, 3) ? "-" : "";
  auto a = digits(r, ndig(r));
  switch (r.below(4)) {
    case 0: s += a.empty() ? "7" : a; break;
    case 1: s += (a.empty() ? "3" : a) + "."; break;
    case 2: s += "." + digits(r, 1 + ndig(r)); break;
    default: s += a + "." + digits(r, a.empty() ? 1 + ndig(r) : ndig(r)); break;
  }
  return s;
}
std::string rest(vf::rng& r, bool has_point) {
  if (r.chance(1, 2)) return {};
  auto s = gen::bytes(r, 1 + r.below(4), std::string_view{",;eE+- a.\0\xff", 11}, 80);
  if ((s[0] >= '0' && s[0] <= '9') || (s[0] == '.' && !has_point)) s[0] = 'e';
  return s;
}
}  // namespace

SCENARIO(random_numbers, 40000, 3000000) {
  auto const n = number(c.r);
  auto const e = rest(c.r, n.find('.') != std::string::npos);
  one<double>(c, n, e);
  one<float>(c, n, e);
  if (c.want_sample(6)) c.sample(n + " then " + e, 6);
}
SCENARIO(typical, 20000, 1000000) {  // coordinates and the like, printed with printf
  auto& r = c.r;
  char b[64];
  auto const v = (r.unit() - 0.5) * std::pow(10.0, static_cast<double>(r.range(-6, 15)));
  std::snprintf(b, sizeof b, "%.*f", static_cast<int>(r.below(16)), v);
  one<double>(c, b, "");
  one<float>(c, b, "");
}
SCENARIO(integer_part, 12000, 300000) {  // around the limits of the integer types
  auto& r = c.r;
  unsigned __int128 v = (static_cast<unsigned __int128>(1) << r.range(20, 100)) + static_cast<unsigned __int128>(r.below(5)) - 2;
  std::string s;
  for (; v; v /= 10) s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
  s = (r.chance(1, 2) ? "-" : "") + s + r.pick({"", ".", ".0", ".5", ".25"});
  one<double>(c, s, rest(r, s.find('.') != std::string::npos));
  one<float>(c, s, "");
}
SCENARIO(exhaustive_short, 3000, 30000) {  // every grammatical text over 0 1 9 . -
  auto const s = gen::nth_string(c.idx, "019.-");
  auto const neg = s.rfind('-');
  auto const body = !s.empty() && s[0] == '-' ? s.substr(1) : s;
  if (neg != std::string::npos && neg != 0) return;
  if (body.empty() || body == "." || std::count(body.begin(), body.end(), '.') > 1) return;
  one<double>(c, s, "");
  one<float>(c, s, "");
  one<double>(c, s, ",1");
}
SCENARIO(junk, 30000, 2000000) {  // no undefined behaviour, cursor inside
  auto& r = c.r;
  auto const s = r.chance(1, 2) ? gen::bytes(r, r.below(16), "0123456789.-+", 90) : gen::bytes(r, r.below(40), "9.-", 95);
  gen::tight t{s};
  vf::note(vf::cat("junk text=", s));
  auto go = [&]<typename T>(T got) {
    cstr x{t.p, t.n};
    bool const ok = utl::parse_arg(x, got);
    CHECK(x.str >= t.p && x.str + x.len == t.p + t.n, "junk/cursor", "text=", s);
    if (ok) CHECK(x.len == 0, "junk/success with rest", "text=", s);
    if (s.empty()) CHECK(!ok, "junk/empty succeeds");
    try { (void)utl::parse_verify<T>(cstr{t.p, t.n}); } catch (std::exception const&) {}
  };
  go(1.0); go(1.0F);
  c.count("junk");
  c.distinct(vf::hstr(s));
}
// success is for [-]digits[.digits] only
SCENARIO(not_numbers, 6000, 200000) {
  auto& r = c.r;
  static constexpr char const* words[] = {"inf", "Inf", "INF", "infinity", "nan", "NaN", "NAN", "-inf", "-infinity", "-nan", "0x10", "0x1p3", "1e5", "1E5", "1e-5", "1e+5", "2.5e3", ".5e1", "1.e2", "1d3", "1f", "1.5f", "2L", "1_000", "1'000", "1,5", "1,000", "1 ", " 1", "+ 1", "- 1", "1.2.3", "1..2", "1-", "1.-", "50%", "1/2", "pi", "true", "null", "abc", "e5", "E5", "\t1", "1\n", "1\r\n", "\n1", "(1)", "\"1\"", "'1'", "\xe2\x88\x9e", "1\xc2\xa0", "#1", "$1", "1m", "1k", "1K", "1M", "0b1", "0o7", "&1", "*"};
  std::string s = words[c.idx % std::size(words)];
  if (c.idx >= std::size(words) * 4 && r.chance(1, 2)) {
    for (auto& ch : s)
      if (std::isalpha(static_cast<unsigned char>(ch)) && r.chance(1, 2)) ch = static_cast<char>(ch ^ 32);
    if (r.chance(1, 3)) s += r.pick({"1", "x", " ", "."});
  }
  gen::tight t{s};
  vf::note(vf::cat("not a number: ", s));
  auto go = [&]<typename T>(T got) {
    cstr x{t.p, t.n};
    CHECK(!utl::parse_arg(x, got), "no number but success", "text=", s);
    CHECK(x.len != 0 && x.str >= t.p && x.str + x.len == t.p + t.n, "no number but everything consumed", "text=", s, " left ", x.len);
    bool threw = false;
    try { (void)utl::parse_verify<T>(cstr{t.p, t.n}); } catch (std::exception const&) { threw = true; }
    CHECK(threw, "parse_verify accepts what is no number", "text=", s);
  };
  go(1.0); go(1.0F);
  c.count("not-numbers");
  c.distinct(vf::hstr(s));
}
