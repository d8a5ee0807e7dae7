// Token and line splitting vs. a split model; pieces are compared by position
// in the text as well as by content.
#include "gen.h"
#include "utl/parser/cstr.h"

using utl::cstr;
namespace {
using piece = std::pair<std::size_t, std::size_t>;  // offset, length
std::vector<piece> split(std::string_view s, char sep) {
  std::vector<piece> o;
  std::size_t b = 0;
  while (b < s.size()) {
    auto e = s.find(sep, b);
    if (e == std::string_view::npos) e = s.size();
    o.emplace_back(b, e - b);
    b = e + 1;
  }
  return o;
}
piece nocr(std::string_view s, piece p) {
  if (p.second && s[p.first + p.second - 1] == '\r') --p.second;
  return p;
}
std::string text(vf::rng& r, std::string_view hot) {
  auto n = r.chance(1, 10) ? r.size(4000) : r.below(24);
  auto pct = r.pick({30U, 60U, 90U, 100U});
  return gen::bytes(r, n, hot, pct);
}
}  // namespace
#define PIECE(exp, got, key)                                                                        \
  do {                                                                                              \
    piece const e_ = (exp);                                                                         \
    cstr const g_ = (got);                                                                          \
    CHECK(g_.len == e_.second && (g_.len == 0 || g_.str == t.p + e_.first), key, "text=", s,        \
          " expected offset ", e_.first, " length ", e_.second, " got length ", g_.len, " offset ", \
          g_.len ? g_.str - t.p : -1);                                                              \
  } while (0)

static void tokens(vf::ctx& c, std::string const& s, char sep) {
  auto& r = c.r;
  gen::tight t{s};
  cstr const v{t.p, t.n};
  auto const exp = split(s, sep);
  vf::note(vf::cat("tokens text=", s, " sep=", static_cast<int>(sep)));
  std::size_t i = 0;
  std::string joined;
  utl::for_each_token(v, sep, [&](cstr tok) {
    CHECK(i < exp.size(), "token/extra", "text=", s);
    PIECE(exp[i], tok, "token");
    if (i) joined += sep;
    joined += tok.to_str();
    ++i;
  });
  CHECK_EQ(exp.size(), i, "token/count", "text=", s);
  CHECK(joined == s || joined + sep == s, "token/join", "text=", s, " joined=", joined);
  c.count("tokens", i);
  i = 0;
  utl::for_each_token_numbered(v, sep, [&](cstr tok, auto n) {
    CHECK(i < exp.size(), "numbered/extra", "text=", s);
    PIECE(exp[i], tok, "numbered");
    ++i;
    CHECK(static_cast<std::size_t>(n) == i, "numbered/number", "text=", s, " n=", n, " i=", i);
  });
  CHECK_EQ(exp.size(), i, "numbered/count", "text=", s);
  // breaking
  auto const stop = r.below(exp.size() + 2);  // after which piece to break
  i = 0;
  bool broke = false;
  utl::for_each_token(v, sep, [&](cstr tok) -> utl::continue_t {
    CHECK(!broke, "break/continued", "text=", s);
    CHECK(i < exp.size(), "break/extra", "text=", s);
    PIECE(exp[i], tok, "break");
    ++i;
    if (i == stop) { broke = true; return utl::continue_t::kBreak; }
    return utl::continue_t::kContinue;
  });
  CHECK_EQ(std::size_t{stop >= 1 ? std::min<std::size_t>(stop, exp.size()) : exp.size()}, i, "break/count", "text=", s);
  if (broke) c.count("breaks");
  // get_until
  auto const e = s.find(sep);
  PIECE((piece{0, e == std::string::npos ? s.size() : e}), utl::get_until(v, sep), "get_until");
  if (!s.empty()) c.distinct(vf::hcomb(vf::hstr(s), static_cast<unsigned char>(sep)));
  if (s.size() > 3 && c.want_sample()) c.sample(vf::cat("sep ", sep, " pieces ", exp.size(), " text ", s));
}

static void lines(vf::ctx& c, std::string const& s) {
  auto& r = c.r;
  gen::tight t{s};
  cstr const v{t.p, t.n};
  auto const raw = split(s, '\n');
  std::vector<piece> exp;
  for (auto const& p : raw) exp.push_back(nocr(s, p));
  vf::note(vf::cat("lines text=", s));
  std::size_t i = 0;
  utl::for_each_line(v, [&](cstr l) {
    CHECK(i < exp.size(), "line/extra", "text=", s);
    PIECE(exp[i], l, "line");
    ++i;
  });
  CHECK_EQ(exp.size(), i, "line/count", "text=", s);
  i = 0;
  utl::for_each_line_numbered(v, [&](cstr l, auto n) {
    CHECK(i < exp.size(), "line-numbered/extra", "text=", s);
    PIECE(exp[i], l, "line-numbered");
    ++i;
    CHECK(static_cast<std::size_t>(n) == i, "line-numbered/number", "text=", s, " n=", n);
  });
  CHECK_EQ(exp.size(), i, "line-numbered/count", "text=", s);
  i = 0;
  for (auto const& l : utl::lines{v}) {
    CHECK(i < exp.size(), "lines/extra", "text=", s);
    PIECE(exp[i], l, "lines");
    ++i;
  }
  CHECK_EQ(exp.size(), i, "lines/count", "text=", s);
  c.count("lines", i);
  // iterator walk
  utl::lines const ls{v};
  auto it = ls.begin();
  std::size_t pos = 0;
  for (int k = 0; k < 60; ++k) {
    CHECK_EQ(pos == exp.size(), it == ls.end(), "iterator/end", "text=", s, " pos=", pos);
    CHECK_EQ(pos != exp.size(), it != ls.end(), "iterator/not end", "text=", s, " pos=", pos);
    if (pos == exp.size()) break;
    PIECE(exp[pos], *it, "iterator/deref");
    CHECK(it->len == (*it).len, "iterator/arrow");
    auto const n = r.below(std::min<std::size_t>(exp.size() - pos, r.pick({1UL, 2UL, 5UL, 1000UL})) + 1);
    switch (r.below(4)) {
      case 0: { auto& q = ++it; CHECK(&q == &it, "iterator/++"); ++pos; break; }
      case 1: { auto old = it++; PIECE(exp[pos], *old, "iterator/post-increment"); ++pos; break; }
      case 2: { auto& q = (it += static_cast<std::ptrdiff_t>(n)); CHECK(&q == &it, "iterator/+="); pos += n; break; }
      default: {
        auto const keep = it;
        auto const q = it + static_cast<std::ptrdiff_t>(n);
        CHECK(it == keep, "iterator/+ moved its operand", "text=", s, " pos=", pos, " n=", n);
        PIECE(exp[pos], *it, "iterator/+ operand");
        CHECK_EQ(pos + n == exp.size(), q == ls.end(), "iterator/+ end", "text=", s, " pos=", pos, " n=", n);
        if (pos + n < exp.size()) PIECE(exp[pos + n], *q, "iterator/+");
        if (r.chance(1, 2)) { it = q; pos += n; }
        break;
      }
    }
    c.count("iterator-steps");
  }
  // any two iterators compare equal iff they are at the same line
  if (!exp.empty()) {
    auto a = r.below(exp.size() + 1), b = r.below(exp.size() + 1);
    auto x = ls.begin(), y = ls.begin();
    x += static_cast<std::ptrdiff_t>(a);
    y += static_cast<std::ptrdiff_t>(b);
    CHECK_EQ(a == b, x == y, "iterator/equality", "text=", s, " a=", a, " b=", b);
    CHECK_EQ(a != b, x != y, "iterator/inequality", "text=", s);
  }
  // single lines
  if (!exp.empty()) PIECE(exp[0], utl::get_line(v), "get_line");
  else CHECK(utl::get_line(v).empty(), "get_line empty");
  { auto e = s; auto n = s.size(); if (n && s.back() == '\r') --n; PIECE((piece{0, n}), utl::strip_cr(v), "strip_cr"); }
  // skip_lines: with a predicate on content and one on position
  for (int k = 0; k < 3; ++k) {
    auto const mod = 1 + r.below(4);
    auto const upto = r.below(raw.size() + 2);
    auto dec = [&](std::string_view l, std::size_t n) {
      return k == 0 ? (l.empty() || l.size() % mod != 0) : k == 1 ? n < upto : (l.empty() || l[0] == '#' || l[0] == 'a');
    };
    std::size_t want = 0;
    while (want < raw.size() && dec(std::string_view(s).substr(exp[want].first, exp[want].second), want)) ++want;
    std::size_t calls = 0;
    auto const rest = utl::skip_lines(v, [&](cstr l) {
      CHECK(calls < exp.size(), "skip_lines/extra", "text=", s);
      PIECE(exp[calls], l, "skip_lines/line");
      auto const d = dec(l.view(), calls);
      ++calls;
      return d;
    });
    CHECK_EQ(std::size_t{std::min(want + 1, raw.size())}, calls, "skip_lines/calls", "text=", s);
    auto const off = want == raw.size() ? s.size() : raw[want].first;
    PIECE((piece{off, s.size() - off}), rest, "skip_lines/rest");
    c.count("skips", want);
  }
  if (!s.empty()) c.distinct(vf::hstr(s));
  if (s.size() > 3 && c.want_sample()) c.sample(vf::cat("lines ", exp.size(), " text ", s));
}

SCENARIO(tokens_random, 6000, 400000) {
  auto const sep = c.r.pick({',', ';', '\n', '\0', '\xff', ' ', 'a'});
  char const h[3] = {sep, c.r.chance(1, 2) ? 'a' : sep, 'b'};
  tokens(c, text(c.r, std::string_view{h, 3}), sep);
}
SCENARIO(tokens_exhaustive, 1093, 9841) { tokens(c, gen::nth_string(c.idx, std::string_view{",a\0", 3}), ','); }
SCENARIO(lines_random, 6000, 400000) { lines(c, text(c.r, c.r.pick({std::string_view{"\n\r"}, std::string_view{"\n\ra"}, std::string_view{"\nab#"}}))); }
SCENARIO(lines_exhaustive, 5461, 21845) { lines(c, gen::nth_string(c.idx, "\n\ra#")); }
SCENARIO(null_text, 20, 20) {
  cstr n;
  auto fail = [&](auto&&...) { c.violate("null/called", ""); };
  utl::for_each_token(n, ',', [&](cstr) { fail(); });
  utl::for_each_line(n, [&](cstr) { fail(); });
  utl::for_each_token(n, ',', [&](cstr) { fail(); return utl::continue_t::kBreak; });
  utl::for_each_token_numbered(n, ',', [&](cstr, int) { fail(); });
  for (auto const& l : utl::lines{n}) { (void)l; fail(); break; }
  CHECK(utl::skip_lines(n, [](cstr) { return true; }).empty() && utl::get_line(n).empty() && utl::get_until(n, 'x').empty(), "null");
  c.distinct(0);
}
SCENARIO(long_lines, 60, 2000) {  // pieces of the size of pages and more
  std::string s;
  auto const n = 1 + c.r.below(12);
  for (std::uint64_t i = 0; i < n; ++i) { s += std::string(c.r.size(70000), 'x'); if (c.r.chance(1, 2)) s += '\r'; if (i + 1 < n || c.r.chance(1, 2)) s += '\n'; }
  lines(c, s);
  tokens(c, s, '\n');
}
SCENARIO(many_pieces, 10, 120) {  // more pieces than small counters hold
  auto const n = c.r.pick({300u, 40000u, 66000u, 70001u, 140000u});
  std::string s;
  for (unsigned i = 0; i < n; ++i) { s.append(c.r.below(3), 'x'); if (c.r.chance(1, 4)) s += '\r'; s += '\n'; }
  lines(c, s);
  tokens(c, s, '\n');
}

SCENARIO(beyond_4gib, 2, 4) {  // offsets and lengths that 32 bits do not hold
  constexpr std::size_t m64 = std::size_t{1} << 26;
  gen::giant g{(std::size_t{1} << 32) + 70000};
  if (!g.p) { c.count("giant-unavailable"); return; }
  std::vector<std::size_t> const nl = c.idx % 2 == 0 ? std::vector<std::size_t>{17, (std::size_t{1} << 31) + 5, (std::size_t{1} << 32) + 300, g.n - 3}
                                                     : std::vector<std::size_t>{(std::size_t{1} << 32) + 9, (std::size_t{1} << 32) + 10};
  cstr const all{g.p, g.n}, part{g.p, m64};
  for (char const sep : {'\n', ';'}) {
    for (auto const p : nl) g.p[p] = sep;
    std::vector<std::size_t> off{0}, len;
    for (auto const p : nl) { len.push_back(p - off.back()); off.push_back(p + 1); }
    len.push_back(g.n - off.back());
    auto const judge = [&](char const* key, auto&& each) {  // each(text, callback)
      if (!gen::quick([&] { each(part, [](cstr) {}); })) { c.count("giant-slow"); return; }
      std::size_t i = 0;
      each(all, [&](cstr t) {
        CHECK(i < off.size() && t.str == g.p + off[i] && t.len == len[i], "giant/piece", key, " piece ", i, " length ", t.len, " of ", i < len.size() ? len[i] : 0);
        ++i;
      });
      CHECK_EQ(off.size(), i, "giant/count", key);
      c.count("giant-pieces", i);
    };
    judge("token", [&](cstr s, auto&& f) { utl::for_each_token(s, sep, [&](cstr t) { f(t); }); });
    judge("token break", [&](cstr s, auto&& f) { utl::for_each_token(s, sep, [&](cstr t) { f(t); return utl::continue_t::kContinue; }); });
    judge("numbered", [&](cstr s, auto&& f) { utl::for_each_token_numbered(s, sep, [&](cstr t, int) { f(t); }); });
    if (sep == '\n') {
      judge("line", [&](cstr s, auto&& f) { utl::for_each_line(s, [&](cstr t) { f(t); }); });
      judge("lines", [&](cstr s, auto&& f) { for (auto const t : utl::lines{s}) f(t); });
      if (gen::quick([&] { (void)utl::skip_lines(part, [](cstr) { return true; }); })) {
        std::size_t i = 0;
        auto const rest = utl::skip_lines(all, [&](cstr t) { return t.len == len[i] && ++i < 2; });
        CHECK(rest.str == g.p + off[1] && rest.len == g.n - off[1], "giant/skip_lines", rest.len);
      }
      if (gen::quick([&] { (void)utl::get_line(part); })) { auto const l = utl::get_line(all); CHECK(l.str == g.p && l.len == len[0], "giant/get_line", l.len); }
    }
    if (gen::quick([&] { (void)utl::get_until(part, 'x'); })) { auto const l = utl::get_until(all, 'x'); CHECK(l.str == g.p && l.len == g.n, "giant/get_until", l.len); }
    for (auto const p : nl) g.p[p] = 0;
  }
  c.distinct(vf::hcomb(4096, c.idx));
}
