#include "gen.h"
#include <iostream>
#include "utl/verify.h"

namespace {
struct capture {
  std::ostringstream s;
  std::streambuf* old;
  capture() : old{std::clog.rdbuf(s.rdbuf())} {}
  ~capture() { std::clog.rdbuf(old); }
  std::string take() { std::clog.flush(); auto r = s.str(); s.str(""); return r; }
};
struct my_ex { int code; std::string text; };
struct derived_ex : std::out_of_range { using std::out_of_range::out_of_range; int extra{7}; };

// one line, ending in the message
void judge_log(vf::ctx& c, std::string const& log, std::string const& msg, std::string const& what) {
  CHECK(!log.empty() && log.back() == '\n', what + "/log-newline", log);
  CHECK(log.size() >= msg.size() + 1 && log.compare(log.size() - 1 - msg.size(), msg.size(), msg) == 0, what + "/log-ends-in-message", "log ", log, " message ", msg);
  auto const head = log.substr(0, log.size() - 1 - msg.size());
  CHECK(head.find('\n') == std::string::npos, what + "/log-one-line", log);
  CHECK(!head.empty(), what + "/log-prefix", log);
}
template <typename F>
std::optional<std::string> text_of(vf::ctx& c, F f, std::string const& what) {
  try { f(); } catch (std::runtime_error const& e) { CHECK(typeid(e) == typeid(std::runtime_error), what + "/type"); return e.what(); } catch (...) { c.violate(what + "/wrong-exception", ""); throw vf::stop_case{}; }
  return std::nullopt;
}
std::string txt(vf::ctx& c) {
  auto n = c.idx % 50 == 7 ? c.r.pick({499UL, 500UL, 501UL, 512UL, 1023UL, 1025UL, 4095UL, 4097UL, 9000UL, 65537UL}) : c.r.size(300);
  std::string s;
  static constexpr char hot[] = "{}%\"\\abc XYZ0.";
  for (std::size_t i = 0; i < n; ++i) s += hot[c.r.below(sizeof hot - 1)];
  if (c.r.chance(1, 3)) {  // blanks and line ends are part of the message
    s += c.r.pick({"\n", " ", "\r\n", "\t", "  \n\n", "\v"});
    if (c.r.chance(1, 2)) s.insert(0, c.r.pick({"\n", " ", "\r\n", "\t "}));
  }
  return s;
}
}  // namespace

SCENARIO(formatted, 4000, 100000) {
  capture cap;
  bool const cond = c.r.chance(1, 3);
  auto const a = static_cast<int>(c.r.range(-100000, 100000));
  auto const s = txt(c);
  auto const d = static_cast<double>(c.r.range(-1000, 1000)) / 8;
  auto const big = c.r.next();
  char db[64];
  std::snprintf(db, sizeof db, "%g", d);
  std::string want;
  int evals = 0, args = 0;
  auto cd = [&] { ++evals; return cond; };
  auto ar = [&](auto const& x) { ++args; return x; };
  c.distinct(vf::hcomb(vf::hstr(s), big));
  if (c.want_sample()) c.sample(vf::cat("message ", s, " int ", a));
  auto run = [&](std::string const& what, std::string const& msg, bool logs, auto f) {
    cap.take();
    auto const got = text_of(c, f, what);
    auto const log = cap.take();
    CHECK_EQ(!cond, got.has_value(), what + "/throws");
    if (got) CHECK_EQ(msg, *got, what + "/text");
    if (got && logs) judge_log(c, log, msg, what);
    else CHECK_EQ(std::string{}, log, what + "/silent");
    c.count(got ? "failures" : "passes");
  };
  // no argument
  run("verify0", "plain message", true, [&] { utl::verify(cond, "plain message"); });
  run("silent0", "plain message", false, [&] { utl::verify_silent(cond, "plain message"); });
  // several arguments
  auto const m3 = "x=" + std::to_string(a) + " s='" + s + "' d=" + db;
  run("verify3", m3, true, [&] { utl::verify(cond, "x={} s='{}' d={:g}", a, s, d); });
  run("silent3", m3, false, [&] { utl::verify_silent(cond, "x={} s='{}' d={:g}", a, s, d); });
  run("macro3", m3, true, [&] { utl_verify(cd(), "x={} s='{}' d={:g}", ar(a), ar(s), ar(d)); });
  CHECK_EQ(1, evals, "macro3/condition-evaluated");
  CHECK_EQ(cond ? 0 : 3, args, "macro3/arguments-evaluated");
  // braces, positions, widths
  auto const mb = "{" + std::to_string(big) + "} " + s + "|" + std::to_string(a);
  run("verify-braces", mb, true, [&] { utl::verify(cond, "{{{2}}} {1}|{0}", a, std::string_view{s}, big); });
  run("macro-braces", mb, true, [&] { utl_verify(cd(), "{{{2}}} {1}|{0}", a, std::string_view{s}, big); });
  CHECK_EQ(2, evals, "macro-braces/condition-evaluated");
  run("silent-braces", mb, false, [&] { utl::verify_silent(cond, "{{{2}}} {1}|{0}", a, std::string_view{s}, big); });
  run("verify-whole", s, true, [&] { utl::verify(cond, "{}", s); });
  run("silent-whole", s, false, [&] { utl::verify_silent(cond, "{}", s); });
  run("macro-whole", s, true, [&] { utl_verify(cond, "{}", s); });
  run("verify-lines", "one\ntwo\n", true, [&] { utl::verify(cond, "one\ntwo\n"); });
  run("verify-blank", "  ", true, [&] { utl::verify(cond, "  "); });
  run("verify-cstr", "c-string " + std::string(s.c_str()), true, [&] { utl::verify(cond, "c-string {}", s.c_str()); });
  // the format may be a runtime string without NUL
  std::string const fmt = "long " + std::string(c.idx % 50 == 9 ? c.r.size(70000) : c.r.size(400), '-') + " {} end";
  gen::tight const t{fmt};
  auto const mf = fmt.substr(0, fmt.size() - 6) + std::to_string(a) + " end";
  run("verify-view", mf, true, [&] { utl::verify(cond, std::string_view{t.p, t.n}, a); });
  run("macro-view", mf, true, [&] { utl_verify(cd(), (std::string_view{t.p, t.n}), a); });
  // conditions that are not bool
  int const flags = cond ? 1 << c.r.below(31) : 0;
  void const* const ptr = cond ? &flags : nullptr;
  run("macro-int", "n 1", true, [&] { utl_verify(flags, "n {}", 1); });
  run("macro-ptr", "n 1", true, [&] { utl_verify(ptr, "n {}", 1); });
  run("verify-int", "n 1", true, [&] { utl::verify(flags, "n {}", 1); });
  run("macro-or", "n 1", true, [&] { utl_verify(flags || ptr, "n {}", 1); });
  run("macro-cond", "n 1", true, [&] { utl_verify(flags ? true : false, "n {}", 1); });
}

SCENARIO(fail, 1000, 20000) {
  capture cap;
  auto const s = txt(c);
  auto const n = static_cast<int>(c.r.range(-99999, 99999));
  cap.take();
  auto const e = utl::fail("bad {} and {}", s, n);
  auto const msg = "bad " + s + " and " + std::to_string(n);
  CHECK((std::is_base_of_v<std::runtime_error, std::decay_t<decltype(e)>>), "fail/type");
  CHECK_EQ(msg, std::string{e.what()}, "fail/text");
  judge_log(c, cap.take(), msg, "fail");
  c.distinct(vf::hstr(s));
  c.count("failures");
}

SCENARIO(exceptions, 1500, 20000) {
  capture cap;
  bool const cond = c.r.chance(1, 2);
  auto const s = txt(c);
  auto const n = static_cast<int>(c.r.below(1000));
  int caught = 0;
  try { utl::verify_ex(cond, my_ex{n, s}); } catch (my_ex const& e) { ++caught; CHECK(e.code == n && e.text == s, "verify_ex/value"); } catch (...) { c.violate("verify_ex/type", ""); }
  CHECK_EQ(cond ? 0 : 1, caught, "verify_ex/throws");
  derived_ex const de{s.empty() ? "x" : s};
  caught = 0;
  try { utl::verify_ex(cond, de); } catch (derived_ex const& e) { ++caught; CHECK(std::string{e.what()} == std::string{de.what()} && e.extra == 7, "verify_ex/derived"); } catch (...) { c.violate("verify_ex/sliced", ""); }
  CHECK_EQ(cond ? 0 : 1, caught, "verify_ex/throws-lvalue");
  caught = 0;
  try { utl::verify_ex(cond, n); } catch (int x) { ++caught; CHECK_EQ(n, x, "verify_ex/int"); }
  CHECK_EQ(cond ? 0 : 1, caught, "verify_ex/throws-int");
  CHECK_EQ(std::string{}, cap.take(), "verify_ex/silent");
  c.distinct(vf::hcomb(vf::hstr(s), cond));
  c.count(cond ? "passes" : "failures");
}

// move-only / non-copyable conditions and argument lifetime
SCENARIO(nested, 500, 5000) {
  capture cap;
  int outer = 0;
  auto const depth = 1 + c.r.below(6);
  std::function<void(std::uint64_t)> go = [&](std::uint64_t d) {
    ++outer;
    if (d == 0) { utl_verify(outer == 0, "depth {}", depth); }
    try { go(d - 1); } catch (std::runtime_error const& e) { utl_verify(false, "{}<{}>", d, std::string{e.what()}); }
  };
  std::string want = "depth " + std::to_string(depth);
  for (std::uint64_t d = 1; d <= depth; ++d) want = std::to_string(d) + "<" + want + ">";
  std::string got;
  try { go(depth); } catch (std::runtime_error const& e) { got = e.what(); }
  CHECK_EQ(want, got, "nested");
  auto const log = cap.take();
  CHECK_EQ(static_cast<std::ptrdiff_t>(depth + 1), std::count(log.begin(), log.end(), '\n'), "nested-log", log);
  c.distinct(depth);
}
