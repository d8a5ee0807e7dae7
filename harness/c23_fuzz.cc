// Every parser on arbitrary bytes in exactly sized heap blocks. The judges are
// ASan/UBSan, the CPU watchdog, the kind of exception, and the position of
// every view handed out.
#include "gen.h"
#include "utl/parser/arg_parser.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/parser/split.h"
#include "utl/pipes.h"

using utl::cstr;
using lib_string = cista::raw::generic_string;
namespace {
struct row {
  utl::csv_col<cstr, UTL_NAME("a")> a;
  utl::csv_col<int, UTL_NAME("b")> b;
  utl::csv_col<double, UTL_NAME("c")> c;
  utl::csv_col<std::string, UTL_NAME("d")> d;
  utl::csv_col<bool, UTL_NAME("e")> e;
  utl::csv_col<lib_string, UTL_NAME("f")> f;
};
using big = std::tuple<cstr, int, double, std::string, bool, lib_string, signed char, unsigned long, float>;

struct input {
  vf::ctx& c;
  std::string const& s;
  gen::tight t;
  input(vf::ctx& cc, std::string const& x) : c{cc}, s{x}, t{x} {}
  cstr v() const { return {t.p, t.n}; }
  void inside(cstr x, char const* key) const {
    CHECK(x.len == 0 || (x.str >= t.p && x.len <= t.n && x.str + x.len <= t.p + t.n), "view outside the text", key, " text=", s);
    std::uint64_t h = 0;
    for (std::size_t i = 0; i < x.len; ++i) h += static_cast<unsigned char>(x.str[i]);
    if (x.len) { volatile auto keep = h; (void)keep; c.count("views"); }
  }
  void inside(lib_string const& x, char const* key) const {
    if (x.is_owning()) { CHECK(x.size() <= s.size(), "string longer than the text", key, " text=", s); return; }
    inside(cstr{x.data(), x.size()}, key);
  }
  void sub(cstr x, char const* key) const {  // a cursor: must end where the text ends
    CHECK(x.len <= t.n && (x.len == 0 || x.str + x.len == t.p + t.n), "cursor outside the text", key, " text=", s);
  }
  template <typename F>
  void run(char const* what, F&& f) const {
    vf::note(vf::cat(what, " text=", s));
    try { f(); c.count("returned"); }
    catch (vf::stop_case const&) { throw; }
    catch (std::exception const&) { c.count("threw"); }
    catch (...) { CHECK(false, "exception type", what, " text=", s); }
  }
};

template <char Sep>
void csv(input const& in) {
  auto const& s = in.s; auto& c = in.c;
  in.run("csv table", [&] {
    auto const e = utl::read<big, Sep>(in.v(), {{"a", "b", "c", "d", "e", "f", "g", "h", "i"}});
    CHECK(e.size() <= s.size(), "more rows than bytes", "text=", s);
    for (auto const& x : e) { in.inside(std::get<0>(x), "csv cstr"); in.inside(std::get<5>(x), "csv library string"); CHECK(std::get<3>(x).size() <= s.size(), "string longer than the text", "text=", s); }
    c.count("csv-rows", e.size());
  });
  in.run("csv table, strings", [&] {
    auto const e = utl::read<std::tuple<cstr, cstr, std::string>, Sep>(in.v(), {{"", "b", "a"}});
    for (auto const& x : e) { in.inside(std::get<0>(x), "csv cstr"); in.inside(std::get<1>(x), "csv cstr"); }
    c.count("csv-rows", e.size());
  });
  in.run("csv stream", [&] {
    auto const e = utl::line_range{utl::make_buf_reader(in.v())} | utl::csv<row, Sep>() | utl::vec();
    CHECK(e.size() <= s.size(), "more rows than bytes", "text=", s);
    for (auto const& x : e) { in.inside(*x.a, "stream cstr"); in.inside(*x.f, "stream library string"); }
    c.count("csv-rows", e.size());
  });
  in.run("split", [&] {
    auto const [a, b, d, e, f, g] = utl::split<Sep, cstr, int, double, std::string, bool, lib_string>(in.v());
    in.inside(a, "split"); in.inside(g, "split");
  });
  in.run("split views", [&] {
    auto const [a, b, d, e] = utl::split<Sep, cstr, cstr, cstr, cstr>(in.v());
    in.inside(a, "split"); in.inside(b, "split"); in.inside(d, "split"); in.inside(e, "split");
  });
  in.run("parse_column", [&] {
    cstr x = in.v();
    for (int k = 0; k < 50 && x; ++k) {
      cstr col; std::string str; auto y = x;
      utl::parse_column<std::string, Sep>(y, str);
      utl::parse_column<cstr, Sep>(x, col);
      in.inside(col, "parse_column"); in.sub(x, "parse_column");
      CHECK(str == col.view(), "parse_column differs by type", "text=", s);
      if (x) ++x;
    }
  });
}
template <typename T>
void number(input const& in) {
  auto const& s = in.s; auto& c = in.c;
  in.run("parse_arg", [&] { cstr x = in.v(); T t; (void)utl::parse_arg(x, t); in.sub(x, "parse_arg"); });
  in.run("parse_value", [&] { cstr x = in.v(); T t; utl::parse_value(x, t); in.sub(x, "parse_value"); });
  in.run("parse_verify", [&] { (void)utl::parse_verify<T>(in.v()); });
  in.run("stream", [&] { cstr x = in.v(); T t; x >> t; in.sub(x, ">>"); });
}
template <typename T>
void text(input const& in) {
  in.run("parse_arg string", [&] { cstr x = in.v(); T t; utl::parse_arg(x, t); if constexpr (!std::is_same_v<T, std::filesystem::path>) { cstr y = in.v(); T u; utl::parse_value(y, u); } });
}
void all_parsers(vf::ctx& c, std::string const& s) {
  input const in{c, s};
  switch (c.idx % 3) { case 0: csv<','>(in); break; case 1: csv<';'>(in); break; default: csv<'"'>(in); csv<','>(in); break; }
  number<int>(in); number<signed char>(in); number<unsigned short>(in); number<long>(in); number<unsigned long>(in);
  number<float>(in); number<double>(in); number<bool>(in);
  text<std::string>(in); text<cstr>(in); text<lib_string>(in); text<std::filesystem::path>(in);
  in.run("tokens", [&] {
    std::size_t n = 0;
    utl::for_each_token(in.v(), ',', [&](cstr t) { in.inside(t, "token"); CHECK(++n <= s.size(), "more tokens than bytes", "text=", s); });
    utl::for_each_token_numbered(in.v(), '"', [&](cstr t, int) { in.inside(t, "token"); });
    utl::for_each_line(in.v(), [&](cstr t) { in.inside(t, "line"); });
    utl::for_each_line_numbered(in.v(), [&](cstr t, unsigned) { in.inside(t, "line"); });
    n = 0;
    for (auto const& l : utl::lines{in.v()}) { in.inside(l, "lines"); CHECK(++n <= s.size(), "more lines than bytes", "text=", s); }
    in.inside(utl::get_line(in.v()), "get_line");
    in.inside(utl::get_until(in.v(), '\n'), "get_until");
    in.inside(utl::strip_cr(in.v()), "strip_cr");
    in.sub(utl::skip_lines(in.v(), [](cstr l) { return l.len % 3 != 2; }), "skip_lines");
    in.inside(in.v().trim(), "trim");
    cstr x = in.v();
    for (int i = 0; i < 20; ++i) { utl::skip_line(x); in.sub(x, "skip_line"); }
  });
  in.run("readers", [&] {
    auto rd = utl::make_buf_reader(in.v());
    for (std::size_t n = 0;; ++n) { auto const l = rd.read_line(); if (l.str == nullptr) break; in.inside(l, "read_line"); CHECK(n <= s.size(), "more lines than bytes", "text=", s); }
    utl::line_range lr{utl::make_buf_reader(in.v())};
    for (auto it = lr.begin(); lr.valid(it); lr.next(it)) in.inside(it, "line_range");
  });
  if (!s.empty()) c.distinct(vf::hstr(s));
  c.count("texts");
}
std::string_view const hot{"\",;\r\n a\"\"0-+.\0\xff\xef\xbb\xbf\xe9t", 20};
std::string csvish(vf::rng& r) {
  std::string s = r.pick({"", "\xEF\xBB\xBF", ""});
  auto const h = r.pick({"a,b,c,d,e,f", "a;b;c;d;e;f;g;h;i", "f,e,d,c,b,a", "a", "\"a\",\"b\"", "b,x,a", "i,h,g,f"});
  s += h;
  s += r.pick({"\n", "\r\n", "\r", "\n\n", ""});
  for (auto n = r.below(5); n; --n) {
    for (auto k = r.below(8); k; --k) { s += r.pick({"", "1", "\"x\"", "\"", "\"\"", "\"a,b", " 12", "-", "9999999999999999999999", "-128", "true", "1.5e3", "\"q\"\"q\"", "\xff", "f", "\"\r", "\"\n"}); s += r.pick({",", ";", ",", "", "\t"}); }
    s += r.pick({"\n", "\r\n", "\r", "\n", "\n\r"});
  }
  // point mutations
  for (auto n = r.below(5); n && !s.empty(); --n) {
    auto const i = r.below(s.size());
    switch (r.below(4)) { case 0: s.erase(i, 1 + r.below(3)); break; case 1: s.insert(i, 1, hot[r.below(hot.size())]); break; case 2: s[i] = static_cast<char>(r.below(256)); break; default: s.resize(i); break; }
  }
  return s;
}
}  // namespace

SCENARIO(csv_like, 14000, 800000) { all_parsers(c, csvish(c.r)); }
SCENARIO(bytes, 14000, 800000) {
  auto& r = c.r;
  all_parsers(c, gen::bytes(r, r.chance(1, 10) ? r.size(3000) : r.below(24), hot, r.pick({0U, 70U, 95U, 100U})));
}
SCENARIO(exhaustive, 9331, 335923) { all_parsers(c, gen::nth_string(c.idx, "\",\r\na1")); }
SCENARIO(exhaustive_numbers, 3906, 97656) {
  auto const s = gen::nth_string(c.idx, "-+.09");
  input const in{c, s};
  number<int>(in); number<signed char>(in); number<unsigned char>(in); number<short>(in); number<long>(in); number<float>(in); number<double>(in);
  c.distinct(vf::hstr(s));
}
SCENARIO(many_columns, 300, 10000) {  // around and beyond the column limit
  auto& r = c.r;
  std::string s;
  auto const n = r.pick({1UL, 60UL, 63UL, 64UL, 65UL, 66UL, 128UL, 255UL, 256UL, 257UL, 320UL, 520UL});
  auto const at = r.below(n);
  for (std::size_t i = 0; i < n; ++i) { s += i == at ? "a" : r.chance(1, 2) ? "zz" : ""; if (i + 1 < n || r.chance(1, 2)) s += ','; }
  s += r.pick({"\n", "\r\n"});
  for (auto k = r.below(4); k; --k) { for (auto i = r.below(n + 20); i; --i) s += "1,"; s += "\n"; }
  all_parsers(c, s);
}
SCENARIO(long_input, 40, 2000) {  // stays linear: 40 kB of one awkward character
  auto const ch = hot[c.idx % hot.size()];
  std::string s(40000, ch);
  if (c.idx >= hot.size()) s = "a,b\n" + s;
  input const in{c, s};
  csv<','>(in);
  number<int>(in); number<double>(in); number<long>(in);
  in.run("lines", [&] { for (auto const& l : utl::lines{in.v()}) in.inside(l, "lines"); });
  c.distinct(vf::hstr(s));
}
