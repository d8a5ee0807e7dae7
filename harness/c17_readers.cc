// All line readers vs. a newline split model.
#include "utl/for_each_line_in_file.h"
#include "fdwatch.h"
#include "gen.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/pipes.h"

using utl::cstr;
namespace {
std::vector<std::string> split(std::string_view s) {
  std::vector<std::string> o;
  for (std::size_t b = 0; b < s.size();) {
    auto e = s.find('\n', b);
    if (e == std::string_view::npos) e = s.size();
    o.emplace_back(s.substr(b, e - b));
    b = e + 1;
  }
  return o;
}
std::string text(vf::rng& r) {
  std::string s;
  switch (r.below(5)) {
    case 0: return gen::bytes(r, r.below(20), "\n\r", 80);
    case 1: return gen::bytes(r, r.size(6000), std::string_view{"\n\r\0\xff", 4}, r.pick({10U, 50U, 90U}));
    case 2: {  // typical file
      for (auto n = r.below(60); n; --n) s += gen::word(r, 30) + (r.chance(1, 3) ? "\r\n" : "\n");
      if (r.chance(1, 2)) s += gen::word(r);
      return s;
    }
    case 3: {  // line ends around pages and stream buffers
      for (auto n = 1 + r.below(5); n; --n) s += std::string(r.chance(1, 2) ? 4096 * (1 + r.below(5)) - 1 : fdw::file_size(r) % 20000, static_cast<char>('a' + r.below(3))) + "\n";
      if (r.chance(1, 2)) s.pop_back();
      return s;
    }
    default: {  // no blank line
      for (auto n = r.below(30); n; --n) s += static_cast<char>('a' + r.below(26)) + gen::bytes(r, r.below(9), "ab\r", 100) + "\n";
      if (!s.empty() && r.chance(1, 2)) s.pop_back();
      return s;
    }
  }
}
}  // namespace
#define LINES(exp, got, key)                                                               \
  do {                                                                                     \
    for (std::size_t k_ = 0; k_ < exp.size() && k_ < got.size(); ++k_)                     \
      CHECK(exp[k_] == got[k_], key "/line", "line ", k_, " is ", got[k_], " expected ", exp[k_], " text=", s); \
    CHECK_EQ(exp.size(), got.size(), key "/count", "text=", s);                            \
    c.count("lines", got.size());                                                          \
  } while (0)

static void memory(vf::ctx& c, std::string const& s) {
  auto const exp = split(s);
  auto const blank = std::any_of(exp.begin(), exp.end(), [](auto const& l) { return l.empty(); });
  gen::tight t{s};
  cstr const v{t.p, t.n};
  vf::note(vf::cat("reader text=", s));
  {  // plain
    utl::buf_reader<> rd{v};
    std::vector<std::string> got;
    std::size_t off = 0;
    for (;;) {
      auto const l = rd.read_line();
      if (l.str == nullptr) { CHECK(l.len == 0, "buf/end length"); break; }
      CHECK(t.inside(l.str, l.len) && l.str == t.p + off, "buf/position", "text=", s, " line ", got.size());
      got.push_back(l.to_str());
      off += l.len + 1;
      CHECK(got.size() <= exp.size(), "buf/extra", "text=", s);
      if (c.r.chance(1, 20)) { auto moved = std::move(rd); rd = std::move(moved); c.count("moved"); }
    }
    LINES(exp, got, "buf");
    for (int i = 0; i < 3; ++i) { auto const l = rd.read_line(); CHECK(l.str == nullptr && l.len == 0, "buf/after end", "text=", s); }
  }
  {  // progress
    std::vector<std::size_t> prog;
    auto rd = utl::make_buf_reader(v, [&](std::size_t n) { prog.push_back(n); });
    std::size_t off = 0, calls = 0;
    for (auto const& l : exp) {
      auto const got = rd.read_line();
      CHECK(got.view() == l, "progress/line", "text=", s);
      off += l.size() + 1;
      if (off <= s.size()) {
        ++calls;
        CHECK_EQ(calls, prog.size(), "progress/calls", "text=", s, " offset ", off);
        CHECK_EQ(off, prog.back(), "progress/bytes", "text=", s);
        c.count("progress-calls");
      } else {
        CHECK_EQ(calls, prog.size(), "progress/unterminated", "text=", s);
      }
    }
    rd.read_line();
    CHECK_EQ(calls, prog.size(), "progress/at end", "text=", s);
  }
  if (!blank) {
    auto collect = [&](auto&& range, char const* key) {
      std::vector<std::string> got;
      std::forward<decltype(range)>(range) | utl::for_each([&](cstr l) { got.push_back(l.to_str()); });
      for (std::size_t k = 0; k < exp.size() && k < got.size(); ++k) CHECK(exp[k] == got[k], key, "line ", k, " text=", s);
      CHECK_EQ(exp.size(), got.size(), key, "text=", s);
      c.count("line-ranges");
    };
    { utl::line_range lr{utl::make_buf_reader(v)}; collect(std::move(lr), "line_range/rvalue"); }
    { auto rd = utl::make_buf_reader(v); utl::line_range lr{rd}; collect(std::move(lr), "line_range/lvalue"); CHECK(rd.read_line().str == nullptr, "line_range/consumed"); }
    {  // by hand
      utl::line_range lr{utl::make_buf_reader(v)};
      std::vector<std::string> got;
      for (auto it = lr.begin(); lr.valid(it); lr.next(it)) got.push_back(lr.read(it).to_str());
      LINES(exp, got, "line_range/manual");
    }
    {
      std::vector<std::string> got; utl::line_range{utl::make_buf_reader(v)} | utl::for_each([&](cstr l) { got.push_back(l.to_str()); });
      LINES(exp, got, "line_range/pipe");
    }
    {  // some lines first, then the rest through the range
      auto rd = utl::make_buf_reader(v);
      auto const k = c.r.below(exp.size() + 1);
      for (std::size_t i = 0; i < k; ++i) rd.read_line();
      std::vector<std::string> rest(exp.begin() + static_cast<std::ptrdiff_t>(k), exp.end());
      std::vector<std::string> got; utl::line_range{std::move(rd)} | utl::for_each([&](cstr l) { got.push_back(l.to_str()); });
      LINES(rest, got, "line_range/rest");
    }
  }
  if (!s.empty()) c.distinct(vf::hstr(s));
}

static void files(vf::ctx& c, std::string const& s) {
  auto const exp = split(s);
  auto const blank = std::any_of(exp.begin(), exp.end(), [](auto const& l) { return l.empty(); });
  auto const path = fdw::put("lines.txt", s);
  vf::note(vf::cat("file text=", s));
  {
    std::vector<std::string> got;
    utl::for_each_line_in_file(path, [&](std::string const& l) { got.push_back(l); CHECK(got.size() <= exp.size(), "file/extra", "text=", s); });
    LINES(exp, got, "file");
  }
  {
    utl::mmap_reader rd{path.c_str()};
    std::vector<std::string> got;
    for (;;) {
      auto const l = rd.read_line();
      if (l.str == nullptr) { CHECK(l.len == 0, "mmap/end length"); break; }
      got.push_back(l.to_str());
      CHECK(got.size() <= exp.size(), "mmap/extra", "text=", s);
      if (c.r.chance(1, 20)) { auto moved = std::move(rd); rd = std::move(moved); c.count("moved"); }
    }
    LINES(exp, got, "mmap");
    auto const l = rd.read_line();
    CHECK(l.str == nullptr && l.len == 0, "mmap/after end", "text=", s);
  }
  if (!blank) {
    std::vector<std::string> got; utl::line_range{utl::mmap_reader{path.c_str()}} | utl::for_each([&](cstr l) { got.push_back(l.to_str()); });
    LINES(exp, got, "mmap line_range");
    utl::mmap_reader rd{path.c_str()};
    std::vector<std::string> got2;
    utl::line_range lr{rd};
    for (auto it = lr.begin(); lr.valid(it); lr.next(it)) got2.push_back(lr.read(it).to_str());
    LINES(exp, got2, "mmap line_range lvalue");
  }
  {  // standard input
    std::istringstream in{s};
    auto* const old = std::cin.rdbuf(in.rdbuf());
    std::cin.clear();
    std::vector<std::string> got;
    utl::for_each_line_in_file("-", [&](std::string const& l) { got.push_back(l); });
    std::cin.rdbuf(old);
    std::cin.clear();
    LINES(exp, got, "stdin");
  }
  if (!s.empty()) c.distinct(vf::hstr(s) + 1);
  if (s.size() > 3 && s.size() < 100 && c.want_sample()) c.sample(vf::cat(exp.size(), " lines: ", s));
  ::unlink(path.c_str());
}

SCENARIO(memory_random, 5000, 300000) { memory(c, text(c.r)); }
SCENARIO(memory_exhaustive, 1365, 5461) { memory(c, gen::nth_string(c.idx, "\na\rb")); }
SCENARIO(files_random, 1500, 60000) { files(c, text(c.r)); }
SCENARIO(files_exhaustive, 364, 1093) { files(c, gen::nth_string(c.idx, "\na\r")); }
SCENARIO(null_text, 1, 1) {
  utl::buf_reader<> rd{cstr{}};
  CHECK(rd.read_line().str == nullptr && rd.read_line().str == nullptr, "null");
}
SCENARIO(missing_file, 3, 3) {
  int n = 0;
  utl::for_each_line_in_file(fdw::workdir() + "/does-not-exist", [&](std::string const&) { ++n; });
  CHECK_EQ(0, n, "missing file lines");
}
SCENARIO(large, 48, 400) {  // more lines, longer lines than narrow counters hold
  auto& r = c.r;
  std::string s;
  switch (c.idx % 3) {
    case 0: {
      auto const n = r.pick({255U, 256U, 257U, 65535U, 65536U, 65537U, 70000U});
      for (unsigned i = 0; i < n; ++i) { s += static_cast<char>('a' + i % 26); s += '\n'; }
      if (r.chance(1, 2)) s.pop_back();
      break;
    }
    case 1:
      for (auto k = 2 + r.below(3); k; --k) s += std::string(r.pick({65534UL, 65535UL, 65536UL, 65537UL, 131072UL}) + r.below(3), static_cast<char>('a' + k)) + "\n";
      if (r.chance(1, 2)) s += "end"; else { s += std::string(r.pick({65534UL, 65536UL, 70000UL, 131072UL}) + r.below(6), 'q'); if (r.chance(1, 3)) s = s.substr(s.rfind('\n') + 1); }
      break;
    default: s = std::string(66000 + r.below(10), '\n'); break;
  }
  if (c.idx % 2) memory(c, s); else files(c, s);
  c.count("large-texts");
}

SCENARIO(beyond_4gib, 2, 4) {  // offsets, lengths and progress that 32 bits do not hold
  gen::giant g{(std::size_t{1} << 32) + 70000};
  if (!g.p) { c.count("giant-unavailable"); return; }
  std::vector<std::size_t> const nl = c.idx % 2 == 0 ? std::vector<std::size_t>{17, (std::size_t{1} << 31) + 5, (std::size_t{1} << 32) + 300} : std::vector<std::size_t>{(std::size_t{1} << 32) + 9, g.n - 1};
  if (!gen::quick([&] { utl::buf_reader<> r{cstr{g.p, std::size_t{1} << 26}}; while (r.read_line().str != nullptr) {} })) { c.count("giant-slow"); return; }
  for (auto const p : nl) g.p[p] = '\n';
  cstr const all{g.p, g.n};
  std::vector<std::size_t> off{0}, len;
  for (auto const p : nl) { len.push_back(p - off.back()); off.push_back(p + 1); }
  len.push_back(g.n - off.back());
  if (len.back() == 0) { len.pop_back(); off.pop_back(); }
  {
    std::vector<std::size_t> prog;
    auto rd = utl::make_buf_reader(all, [&](std::size_t n) { prog.push_back(n); });
    for (std::size_t i = 0; i < off.size(); ++i) {
      auto const l = rd.read_line();
      CHECK(l.str == g.p + off[i] && l.len == len[i], "giant/line", i, " length ", l.len, " of ", len[i]);
    }
    CHECK(rd.read_line().str == nullptr, "giant/end");
    CHECK_EQ(nl.size(), prog.size(), "giant/progress calls");
    for (std::size_t i = 0; i < nl.size(); ++i) CHECK_EQ(nl[i] + 1, prog[i], "giant/progress");
  }
  {
    std::size_t i = 0;
    utl::line_range{utl::make_buf_reader(all)} | utl::for_each([&](cstr l) { CHECK(i < off.size() && l.str == g.p + off[i] && l.len == len[i], "giant/line_range", i, " length ", l.len); ++i; });
    CHECK_EQ(off.size(), i, "giant/line_range count");
  }
  c.count("giant-lines", off.size());
  c.distinct(vf::hcomb(4096, c.idx));
}
