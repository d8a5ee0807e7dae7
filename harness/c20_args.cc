// Boolean, string and path arguments; helpers.
#include "gen.h"
#include "utl/parser/arg_parser.h"

using utl::cstr;
namespace {
std::string lower(std::string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32); return s; }
}  // namespace

static void boolean(vf::ctx& c, std::string const& s) {
  gen::tight t{s};
  auto const l = lower(s);
  bool const is_true = l == "true", is_false = l == "false";
  vf::note(vf::cat("bool text=", s));
  for (int def = 0; def < 2; ++def) {
    cstr x{t.p, t.n};
    bool got = !def;
    bool const ok = utl::parse_arg(x, got, def != 0);
    CHECK_EQ(is_true || is_false, ok, "bool/result", "text=", s);
    if (is_true) CHECK(got, "bool/true", "text=", s);
    if (is_false) CHECK(!got, "bool/false", "text=", s, " default ", def);
    CHECK(x.str + x.len == t.p + t.n && x.str >= t.p, "bool/cursor inside", "text=", s);
    if (ok) CHECK(x.len == 0, "bool/consumed", "text=", s);
    if (l.empty() || (l[0] != 't' && l[0] != 'f')) {
      CHECK_EQ(def != 0, got, "bool/default", "text=", s);
      CHECK_EQ(def != 0, utl::parse<bool>(cstr{t.p, t.n}, def != 0), "bool/parse default", "text=", s);
      c.count("bool-default");
    }
  }
  cstr const x{t.p, t.n};
  { cstr y = x; bool got = is_false; bool const ok = utl::parse_arg(y, got); CHECK_EQ(is_true || is_false, ok, "bool/plain result", "text=", s); if (ok) CHECK_EQ(is_true, got, "bool/plain value", "text=", s); else if (l.empty() || (l[0] != 't' && l[0] != 'f')) CHECK(!got, "bool/plain default", "text=", s); }
  if (is_true || is_false) {
    for (bool const def : {false, true}) CHECK_EQ(is_true, utl::parse<bool>(x, def), "bool/parse with default", "text=", s);
    CHECK_EQ(is_true, utl::parse<bool>(x), "bool/parse", "text=", s);
    CHECK_EQ(is_true, utl::parse_verify<bool>(x), "bool/parse_verify", "text=", s);
    cstr y = x;
    bool got = is_false;
    y >> got;
    CHECK(got == is_true && y.len == 0, "bool/stream", "text=", s);
    c.count("bool-good");
  } else {
    bool threw = false;
    try { (void)utl::parse_verify<bool>(x); } catch (std::exception const&) { threw = true; }
    CHECK(threw, "bool/parse_verify accepts", "text=", s);
    c.count("bool-bad");
  }
}
static void strings(vf::ctx& c, std::string const& s) {
  gen::tight t{s};
  cstr const v{t.p, t.n};
  vf::note(vf::cat("string text=", s));
  { cstr x = v; std::string a = "old"; utl::parse_arg(x, a); CHECK(a == s, "string", "text=", s); }
  { cstr x = v; cstr a{"old"}; utl::parse_arg(x, a); CHECK(a.len == s.size() && (s.empty() || a.str == t.p), "cstr", "text=", s); }
  { cstr x = v; cista::raw::generic_string a{"old"}; utl::parse_arg(x, a); CHECK(a.view() == s && (s.empty() || a.data() == t.p), "library string", "text=", s); }
  { cstr x = v; std::filesystem::path a{"old"}; utl::parse_arg(x, a); CHECK(a.native() == s, "path", "text=", s, " got ", a.native()); }
  CHECK(utl::parse<std::string>(v) == s, "parse string", "text=", s);
  CHECK(utl::parse<cstr>(v).view() == s, "parse cstr", "text=", s);
  CHECK(utl::parse<std::filesystem::path>(v).native() == s, "parse path", "text=", s);
  { cstr x = v; std::string a; x >> a; CHECK(a == s, "stream string", "text=", s); }
  { cstr x = v; std::filesystem::path a; x >> a; CHECK(a.native() == s, "stream path", "text=", s); }
  {  // a part of a longer text
    auto const b = c.r.below(s.size() + 1), n = c.r.below(s.size() - b + 1);
    auto const part = s.substr(b, n);
    auto const w = v.substr(b, utl::size{n});
    CHECK(utl::parse<std::string>(w) == part, "part string", "text=", s);
    CHECK(utl::parse<std::filesystem::path>(w).native() == part, "part path", "text=", s, " part=", part);
  }
  {  // skip_line
    cstr x = v;
    for (int k = 0; k < 20; ++k) {
      auto const at = static_cast<std::size_t>(x.str - t.p);
      auto const nl = s.find('\n', at);
      auto const exp = nl == std::string::npos ? s.size() : nl + 1;
      utl::skip_line(x);
      CHECK(static_cast<std::size_t>(x.str - t.p) == exp && x.len == s.size() - exp, "skip_line", "text=", s, " from ", at);
      c.count("skip_line");
      if (!x) break;
    }
    cstr n;
    utl::skip_line(n);
    CHECK(n.len == 0, "skip_line null");
  }
  if (!s.empty() && s[0] == ',') { cstr x = v; auto& r = (x >> utl::expect_char<','>{}); CHECK(&r == &x && x.str == t.p + 1 && x.len == s.size() - 1, "expect_char", "text=", s); }
  c.count("strings");
  if (!s.empty()) c.distinct(vf::hstr(s));
}

SCENARIO(bool_case_combinations, 48, 48) {
  std::string s = c.idx < 16 ? "true" : "false";
  auto const m = c.idx < 16 ? c.idx : c.idx - 16;
  for (std::size_t i = 0; i < s.size(); ++i) if (m >> i & 1) s[i] = static_cast<char>(s[i] - 32);
  boolean(c, s);
  for (std::size_t n = 0; n < s.size(); ++n) boolean(c, s.substr(0, n));
  for (char e : {'e', ' ', '\0', '\n', ','}) { boolean(c, s + e); boolean(c, e + s); }
  for (std::size_t i = 0; i < s.size(); ++i) for (int x = 1; x < 256; ++x) { auto q = s; q[i] = static_cast<char>(q[i] ^ x); boolean(c, q); }
  c.distinct(vf::hstr(s));
}
SCENARIO(bool_random, 12000, 400000) {
  auto& r = c.r;
  auto s = r.chance(1, 2) ? gen::bytes(r, r.below(8), "trueTRUEfalsFAL", 95) : r.pick({std::string{"true"}, std::string{"FALSE"}, std::string{"yes"}, std::string{"1"}, std::string{"0"}, std::string{"no"}, std::string{"on"}});
  if (r.chance(1, 4)) s.insert(r.below(s.size() + 1), 1, static_cast<char>(r.below(256)));
  boolean(c, s);
  c.distinct(vf::hstr(s));
}
SCENARIO(strings_random, 8000, 300000) {
  auto& r = c.r;
  strings(c, gen::bytes(r, r.chance(1, 8) ? r.size(5000) : r.below(20), std::string_view{"/.,\n\0a\"\xff\\", 9}, r.pick({30U, 80U})));
}
SCENARIO(strings_exhaustive, 1555, 9331) { strings(c, gen::nth_string(c.idx, std::string_view{",\n\0a\"/", 6})); }
SCENARIO(null_text, 1, 1) {
  cstr n;
  std::string a = "x"; utl::parse_arg(n, a); CHECK(a.empty(), "null string");
  std::filesystem::path p = "x"; utl::parse_arg(n, p); CHECK(p.empty(), "null path");
  cstr q{"x"}; utl::parse_arg(n, q); CHECK(q.empty(), "null cstr");
  bool b = true; CHECK(!utl::parse_arg(n, b) && !b, "null bool"); CHECK(!utl::parse_arg(n, b, true) && b, "null bool default");
}
SCENARIO(large, 16, 200) { strings(c, gen::bytes(c.r, c.r.pick({65535UL, 65536UL, 65537UL, 70000UL, 131073UL}), c.r.chance(1, 2) ? "a" : "\n/,", 80)); }
