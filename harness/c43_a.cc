#define VF_NO_MAIN
#include "c43_progs.h"

#include "utl/cmd_line_parser.h"
#include "utl/logging.h"
#include "utl/parser/arg_parser.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/file.h"
#include "utl/for_each_line_in_file.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/parser/split.h"
#include "utl/pipes.h"
#include "utl/printable_enum.h"
#include "utl/read_file.h"
#include "utl/verify.h"

#include "fmt/ostream.h"

namespace c43 {
namespace {
using utl::cstr;
PRINTABLE_ENUM(color, RED, GREEN, BLUE, SOMETHING_LONGER_THAN_A_SMALL_STRING)

void ints(vf::rng& r, shared_t const&, hash& h) {
  for (int i = 0; i < 6; ++i) {
    auto const s = std::to_string(static_cast<std::int64_t>(r.next()) >> r.below(60));
    h.add(static_cast<std::uint64_t>(utl::parse<std::int64_t>(cstr{s})));
    h.add(static_cast<std::uint64_t>(utl::parse<int>(cstr{s.substr(0, 7)}, 5)));
    h.add(utl::parse<std::uint8_t>(cstr{std::to_string(r.below(256))}));
    try { h.add(static_cast<std::uint64_t>(utl::parse_verify<int>(cstr{s.substr(0, 6) + (r.chance(1, 2) ? "x" : "")}))); } catch (std::exception const& e) { h.add(1); }
    auto const d = utl::parse<double>(cstr{s.substr(0, 5) + "." + std::to_string(r.below(1000))});
    std::uint64_t b = 0;
    std::memcpy(&b, &d, sizeof b);
    h.add(b);
    h.add(utl::parse<bool>(cstr{r.chance(1, 2) ? "TRUE" : "false"}));
    h.add(utl::parse<std::string>(cstr{s}));
  }
}
using row_t = std::tuple<int, std::string, double, cstr>;
void csv(vf::rng& r, shared_t const& s, hash& h) {
  auto own = "b,a,x,c\n" + std::to_string(r.below(1000)) + ",7,\"q\"\"" + std::to_string(r.below(1000)) + "\",1.5\n";
  for (std::string const* t : {&s.csv, static_cast<std::string const*>(&own)}) {
    for (auto const& [a, b, d, v] : utl::read<row_t>(cstr(t->data(), t->size()), {{"a", "b", "c", "x"}})) {
      h.add(static_cast<std::uint64_t>(a)); h.add(b); h.add(static_cast<std::uint64_t>(d * 4)); h.add(v.view());
    }
  }
}
struct crow {
  utl::csv_col<int, UTL_NAME("a")> a;
  utl::csv_col<std::string, UTL_NAME("b")> b;
  utl::csv_col<double, UTL_NAME("c")> d;
};
void csv_stream(vf::rng&, shared_t const& s, hash& h) {
  utl::line_range{utl::make_buf_reader(cstr{s.csv.data(), s.csv.size()})} | utl::csv<crow>() | utl::for_each([&](crow const& x) { h.add(static_cast<std::uint64_t>(*x.a)); h.add(*x.b); h.add(static_cast<std::uint64_t>(*x.d * 4)); });
}
void split(vf::rng& r, shared_t const&, hash& h) {
  auto const line = std::to_string(r.below(100)) + ",word" + std::to_string(r.below(100)) + ",\"a,b\"," + std::to_string(r.below(9)) + ".25";
  auto const [a, b, d, e] = utl::split<',', int, std::string, std::string, float>(cstr{line});
  h.add(static_cast<std::uint64_t>(a)); h.add(b); h.add(d); h.add(static_cast<std::uint64_t>(e * 4));
}
void tokens(vf::rng& r, shared_t const& s, hash& h) {
  auto const from = r.below(s.text.size() + 1);
  cstr const t{s.text.data() + from, s.text.size() - from};
  utl::for_each_token(t, ',', [&](cstr x) { h.add(x.view()); });
  utl::for_each_token_numbered(t, ' ', [&](cstr x, unsigned n) { h.add(n); h.add(x.view()); });
  utl::for_each_line(t, [&](cstr x) { h.add(x.trim().view()); });
  for (auto const l : utl::lines{t}) h.add(l.view());
  h.add(utl::get_until(t, '\n').view());
  h.add(t.substr(2, utl::size(5)).view()); h.add(t.starts_with("a")); h.add(t.contains("b,"));
}
void readers(vf::rng& r, shared_t const& s, hash& h) {
  auto rd = utl::make_buf_reader(cstr{s.text.data(), s.text.size()}, [&](std::size_t n) { h.add(n); });
  for (auto l = rd.read_line(); l.valid(); l = rd.read_line()) h.add(l.view());
  if (!s.path.empty() && r.chance(1, 2)) {
    utl::mmap_reader m{s.path.c_str()};
    h.add(m.read(1 + r.below(9)).view());
    for (auto l = m.read_line(); l.valid(); l = m.read_line()) h.add(l.view());
    utl::for_each_line_in_file(s.path.c_str(), [&](cstr l) { h.add(l.view()); });
    h.add(utl::file{s.path.c_str(), "r"}.content_str());
    h.add(utl::read_file(s.path.c_str()).value_or("none"));
    h.add(utl::read_file((s.path + "-absent").c_str()).has_value());
  }
}
struct level { int v = 0; };
[[maybe_unused]] void parse_arg(cstr& s, level& l) { here(); utl::parse_arg(s, l.v); }
[[maybe_unused]] std::ostream& operator<<(std::ostream& o, level const& l) { here(); return o << "level " << l.v; }
struct opts {
  utl::cmd_line_flag<int, UTL_LONG("--port"), UTL_SHORT("-p"), UTL_DESC("port"), utl::required> port;
  utl::cmd_line_flag<std::string, UTL_LONG("--name"), UTL_DESC("name")> name{std::string{"anon"}};
  utl::cmd_line_flag<bool, UTL_LONG("--on"), UTL_SHORT("-o"), UTL_DESC("on")> on;
  utl::cmd_line_flag<level, UTL_LONG("--level"), UTL_DESC("level")> lvl;
};
void cmdline(vf::rng& r, shared_t const&, hash& h) {
  std::vector<std::string> a{"prog", "--on"};
  if (r.chance(3, 4)) { a.push_back("-p"); a.push_back(std::to_string(r.below(70000))); }
  if (r.chance(1, 2)) { a.push_back("--name"); a.push_back("a rather long name number " + std::to_string(r.below(100))); }
  if (r.chance(1, 2)) { a.push_back("--level"); a.push_back(std::to_string(r.below(1000))); }
  std::vector<char const*> p;
  for (auto& x : a) p.push_back(x.c_str());
  try {
    auto const o = utl::parse_flags<opts>(static_cast<int>(p.size()), p.data());
    h.add(static_cast<std::uint64_t>(o.port.val())); h.add(o.name.val()); h.add(o.on.val()); h.add(static_cast<std::uint64_t>(o.lvl.val().v));
    h.add(utl::print_flags(o));
  } catch (std::exception const& e) { h.add(std::string_view{e.what()}); }
  h.add(utl::description<opts>());
}
struct item {  // written to a stream by a function that may use the library, too
  std::string s;
  friend std::ostream& operator<<(std::ostream& o, item const& i) { here(); return o << i.s; }
};
void texts(vf::rng& r, shared_t const&, hash& h) {
  auto const t = static_cast<std::time_t>(r.below(4000000000ULL));
  h.add(utl::time(t));
  h.add(std::string_view{as_string(static_cast<color>(r.below(4)))});
  std::ostringstream s;
  s << static_cast<color>(r.below(4));
  h.add(s.str());
  auto const n = r.below(100);
  try { utl::verify(n > 50, "n is {} of {}", n, "the text"); h.add(1); } catch (std::runtime_error const& e) { h.add(std::string_view{e.what()}); }
  try { utl_verify(n < 50, "m is {}", n); h.add(2); } catch (std::runtime_error const& e) { h.add(std::string_view{e.what()}); }
  try { utl::verify_silent(n == 50, "k is {}", n); h.add(3); } catch (std::runtime_error const& e) { h.add(std::string_view{e.what()}); }
  h.add(std::string_view{utl::fail("x {}", n).what()});
  item const it{std::to_string(r.below(1000000))};
  try { utl::verify_silent(n == 50, "{} and {} and {}", fmt::streamed(it), n, fmt::streamed(it)); h.add(4); } catch (std::runtime_error const& e) { h.add(std::string_view{e.what()}); }
  try { utl::verify(n == 50, "{} or {}", fmt::streamed(it), n); h.add(4); } catch (std::runtime_error const& e) { h.add(std::string_view{e.what()}); }
  uLOG(utl::info) << "n=" << n << it;
}
}  // namespace
prog const parsers[] = {{"ints", ints}, {"csv", csv}, {"csv_stream", csv_stream}, {"split", split}, {"tokens", tokens}, {"readers", readers}, {"cmdline", cmdline}, {"texts", texts}};
std::size_t const n_parsers = std::size(parsers);
}  // namespace c43
