// C41: printable enums, log statements, time formatting, timers.
#include "vf.h"

#include <cmath>
#include <ctime>
#include <regex>

#include "utl/logging.h"
#include "utl/printable_enum.h"
#include "utl/timer.h"
#include "utl/timing.h"

// ---- a controlled steady clock (the real one only moves forward by itself)
static std::int64_t fake_ns = 0;
static std::uint64_t clock_reads = 0;
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  ++clock_reads;
  return time_point{duration{fake_ns}};
}
}  // namespace _V2
}  // namespace std::chrono

namespace {

struct capture {
  capture() : old{std::clog.rdbuf(s.rdbuf())} {}
  ~capture() { std::clog.rdbuf(old); }
  std::ostringstream s;
  std::streambuf* old;
};

// ---------------------------------------------------------------- enums
PRINTABLE_ENUM(single, ONLY)
PRINTABLE_ENUM(one_char, a, b, c, d, e)
PRINTABLE_ENUM(prefixes, x, xx, xxx, xxxx, xxx_x, y, yx)
PRINTABLE_ENUM(tight_list,AA,BB,CC,DD_1,E)
PRINTABLE_ENUM(multi_line,
               first_enumerator, second_enumerator,
               third,
               fourth_with_a_rather_long_name_that_does_not_fit_into_a_small_string,
               _leading, trailing_, MixedCase42)
PRINTABLE_ENUM(spaced , alpha ,beta  ,  gamma,delta)
#define N10(p) p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9
PRINTABLE_ENUM(hundred, e00, e01, e02, e03, e04, e05, e06, e07, e08, e09, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29, e30, e31, e32, e33, e34, e35, e36, e37, e38, e39, e40, e41, e42, e43, e44, e45, e46, e47, e48, e49, e50, e51, e52, e53, e54, e55, e56, e57, e58, e59, e60, e61, e62, e63, e64, e65, e66, e67, e68, e69, e70, e71, e72, e73, e74, e75, e76, e77, e78, e79, e80, e81, e82, e83, e84, e85, e86, e87, e88, e89, e90, e91, e92, e93, e94, e95, e96, e97, e98, e99)
namespace other { PRINTABLE_ENUM(scoped, RED, GREEN, BLUE) }

template <typename E>
void chk(vf::ctx& c, E v, char const* name, char const* en) {
  CHECK_EQ(std::string{name}, as_string(v), std::string("as_string/") + en);
  std::ostringstream o;
  o << "[" << v << "]" << v;
  CHECK_EQ("[" + std::string{name} + "]" + name, o.str(), std::string("stream/") + en);
  CHECK(o.good(), std::string("stream-state/") + en);
  E const cv = v;
  CHECK_EQ(std::string{name}, as_string(cv), std::string("as_string-const/") + en);
  c.count("enumerators");
}
}  // namespace

SCENARIO(enums, 60, 600) {
#define V(E, n) chk(c, E::n, #n, #E)
  V(single, ONLY);
  V(one_char, a); V(one_char, b); V(one_char, c); V(one_char, d); V(one_char, e);
  V(prefixes, x); V(prefixes, xx); V(prefixes, xxx); V(prefixes, xxxx); V(prefixes, xxx_x); V(prefixes, y); V(prefixes, yx);
  V(tight_list, AA); V(tight_list, BB); V(tight_list, CC); V(tight_list, DD_1); V(tight_list, E);
  V(multi_line, first_enumerator); V(multi_line, second_enumerator); V(multi_line, third);
  V(multi_line, fourth_with_a_rather_long_name_that_does_not_fit_into_a_small_string);
  V(multi_line, _leading); V(multi_line, trailing_); V(multi_line, MixedCase42);
  V(spaced, alpha); V(spaced, beta); V(spaced, gamma); V(spaced, delta);
  chk(c, other::scoped::RED, "RED", "other::scoped"); chk(c, other::scoped::GREEN, "GREEN", "other::scoped"); chk(c, other::scoped::BLUE, "BLUE", "other::scoped");
  auto const i = static_cast<int>(c.idx < 100 ? c.idx : c.r.below(100));
  char b[8]; std::snprintf(b, sizeof b, "e%02d", i);
  chk(c, static_cast<hundred>(i), b, "hundred");
  auto const j = static_cast<int>(c.r.below(100));
  std::snprintf(b, sizeof b, "e%02d", j);
  chk(c, static_cast<hundred>(j), b, "hundred");
  c.distinct(static_cast<unsigned>(i * 100 + j));
}

// ---------------------------------------------------------------- time
namespace {
// civil date from days (proleptic Gregorian), independent of libc
struct civil { std::int64_t y; int m, d; };
civil from_days(std::int64_t z) {
  std::int64_t y = 1970;
  auto leap = [](std::int64_t a) { return (a % 4 == 0 && a % 100 != 0) || a % 400 == 0; };
  std::int64_t const cyc = z >= 0 ? z / 146097 : -((-z + 146096) / 146097);
  y += 400 * cyc; z -= cyc * 146097;
  while (z >= (leap(y) ? 366 : 365)) { z -= leap(y) ? 366 : 365; ++y; }
  int const ml[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int m = 0;
  while (z >= ml[m]) z -= ml[m++];
  return {y, m + 1, static_cast<int>(z) + 1};
}
std::string iso(std::int64_t t) {
  std::int64_t d = t / 86400, s = t % 86400;
  if (s < 0) { s += 86400; --d; }
  auto const cv = from_days(d);
  char b[64];
  std::snprintf(b, sizeof b, "%04lld-%02d-%02dT%02d:%02d:%02dZ", static_cast<long long>(cv.y), cv.m, cv.d, static_cast<int>(s / 3600), static_cast<int>(s / 60 % 60), static_cast<int>(s % 60));
  return b;
}
bool iso_ok(std::string const& got, std::string const& want) {
  return got == want || got == want + "+0000";
}
constexpr std::int64_t year1000 = -30610224000LL, year9999_end = 253402300799LL;
char const* const zones[] = {"UTC", "Europe/Berlin", "EST5EDT", "XYZ-13:45", "NPT-5:45", "AAA+11"};
struct zone {
  explicit zone(char const* z) { setenv("TZ", z, 1); tzset(); }
  ~zone() { setenv("TZ", "UTC", 1); tzset(); }
};
}  // namespace

SCENARIO(time_format, 6000, 300000) {
  zone const z{zones[c.r.below(6)]};
  std::int64_t t = 0;
  switch (c.r.below(6)) {
    case 0: t = c.r.range(year1000, year9999_end); break;
    case 1: t = c.r.range(0, 4102444800LL); break;
    case 2: t = c.r.range(-200000, 200000); break;
    case 3: t = c.r.pick({year1000, year9999_end, std::int64_t{0}, std::int64_t{-1}, std::int64_t{951782399}, std::int64_t{951782400}, std::int64_t{2147483647}, std::int64_t{2147483648LL}, std::int64_t{4107542399}, std::int64_t{4107542400}, std::int64_t{-2208988800}}); break;
    case 4: t = c.r.range(-11138, 93000) * 86400 * 29 / 29 + c.r.range(-2, 2); break;  // around midnights
    default: t = c.r.range(-8000, 80000) * 2629746 + c.r.range(-86400, 86400); break;
  }
  t = std::min(std::max(t, year1000), year9999_end);
  auto const got = utl::time(static_cast<time_t>(t));
  CHECK(iso_ok(got, iso(t)), "time", "t=", t, " want ", iso(t), " got ", got);
  c.count("times");
  c.distinct(static_cast<std::uint64_t>(t));
  if (c.want_sample()) c.sample(vf::cat(t, " -> ", got));
}

// ---------------------------------------------------------------- logging
namespace {
struct now_window {
  std::int64_t a = static_cast<std::int64_t>(::time(nullptr));
  bool ok(std::string const& ts) const {
    auto const b = static_cast<std::int64_t>(::time(nullptr)) + 1;
    for (auto t = a - 1; t <= b; ++t) if (iso_ok(ts, iso(t))) return true;
    return false;
  }
};
struct parsed { std::string lvl, ts, loc, msg; bool ok = false; };
parsed parse(std::string const& line) {
  parsed p;
  std::size_t i = 0;
  auto field = [&](std::string& o) {
    if (i >= line.size() || line[i] != '[') return false;
    auto const e = line.find(']', i);
    if (e == std::string::npos) return false;
    o = line.substr(i + 1, e - i - 1);
    i = e + 1;
    return true;
  };
  if (!field(p.lvl) || !field(p.ts) || !field(p.loc)) return p;
  if (i >= line.size() || line[i] != ' ') return p;
  p.msg = line.substr(i + 1);
  p.ok = true;
  return p;
}
std::string printable(vf::rng& r) {
  std::string s;
  auto const n = r.chance(1, 10) ? 200 + r.below(3000) : r.below(40);
  for (std::size_t i = 0; i < n; ++i) s += static_cast<char>(r.chance(1, 6) ? r.pick({'%', '[', ']', '\t', ' ', '"', ':'}) : static_cast<char>(32 + r.below(95)));
  return s;
}
struct streamed_thing { int x; };
std::ostream& operator<<(std::ostream& o, streamed_thing const& t) { return o << "<" << t.x << ">"; }

void check_line(vf::ctx& c, std::string const& out, now_window const& w, std::string const& lvl, std::string const& loc, std::string const& msg) {
  CHECK(!out.empty() && out.back() == '\n' && std::count(out.begin(), out.end(), '\n') == 1, "log-one-line", out);
  auto const p = parse(out.substr(0, out.size() - 1));
  CHECK(p.ok, "log-format", out);
  CHECK_EQ(lvl, p.lvl, "log-level");
  CHECK(w.ok(p.ts), "log-time", p.ts);
  CHECK_EQ(loc, p.loc, "log-location");
  CHECK_EQ(msg, p.msg, "log-message");
  c.count("log-lines");
}
}  // namespace

SCENARIO(logging, 1500, 40000) {
  zone const z{zones[c.r.below(6)]};
  auto const s1 = printable(c.r), s2 = printable(c.r);
  std::string_view const sv{s2};
  auto const num = static_cast<int>(c.r.range(-100000, 100000));
  auto const li = c.r.below(8);
  char const* const tags[] = {"emrg", "alrt", "crit", "erro", "warn", "note", "info", "debg"};
  using namespace utl;
  utl::log_level const lv[] = {emrg, alrt, crit, err, warn, notice, info, debug};
  std::ostringstream want;
  now_window const w;
  std::string loc, out;
  {
    capture cap;
    switch (c.r.below(6)) {
      case 0:
#line 4711 "some/dir/module.cc"
        uLOG(lv[li]) << s1 << num << sv;
#line 4800 "plain.cc"
        loc = "module.cc:4711"; want << s1 << num << sv; break;
      case 1:
#line 1 "plain.cc"
        uLOG(lv[li]) << 'x' << streamed_thing{num} << "lit" << 1.5 << true << s1; loc = "plain.cc:1"; want << 'x' << streamed_thing{num} << "lit" << 1.5 << true << s1; break;
      case 2:
#line 99999 "/abs/path.with.dots/a-b_c.h"
        uLOG(lv[li]) << s1; loc = "a-b_c.h:99999"; want << s1; break;
      case 3:
#line 12 "x/y/z/deep.cc"
        uLOG(lv[li]); loc = "deep.cc:12"; break;
      case 4:
        if (num % 2 == 0)
#line 77 "./rel.cc"
          uLOG(lv[li]) << num; 
        else
#line 77 "./rel.cc"
          uLOG(lv[li]) << sv;
        loc = "rel.cc:77"; if (num % 2 == 0) want << num; else want << sv; break;
      default: {
        std::string mv = s1;
#line 5 "m.cc"
        uLOG(lv[li]) << std::move(mv) << static_cast<unsigned long long>(c.idx) << std::string("tmp"); loc = "m.cc:5"; want << s1 << c.idx << "tmp"; break;
      }
    }
    out = cap.s.str();
  }
#line 1000 "c41_text.cc"
  check_line(c, out, w, tags[li], loc, want.str());
  c.distinct(vf::hcomb(vf::hstr(s1), vf::hstr(s2)));
}

// ---------------------------------------------------------------- timers
namespace {
std::int64_t elapsed(vf::rng& r) {
  switch (r.below(5)) {
    case 0: return static_cast<std::int64_t>(r.below(2000000));            // < 2 ms
    case 1: return static_cast<std::int64_t>(r.below(3000000000ULL));      // < 3 s
    case 2: return static_cast<std::int64_t>(r.below(100000000000000ULL)); // ~ a day
    case 3: return 0;
    default: return static_cast<std::int64_t>(r.below(1000000)) * 1000000; // whole ms
  }
}
// "<head> (<ms>ms)"
void check_timer_line(vf::ctx& c, std::string const& line, now_window const& w, std::string const& head, std::int64_t ns, char const* key) {
  auto const p = parse(line);
  CHECK(p.ok, std::string(key) + "-format", line);
  CHECK_EQ(std::string("info"), p.lvl, std::string(key) + "-level");
  CHECK(w.ok(p.ts), std::string(key) + "-time", p.ts);
  CHECK(p.msg.compare(0, head.size(), head) == 0, std::string(key) + "-text", "want ", head, " got ", p.msg);
  auto const rest = p.msg.substr(head.size());
  CHECK(rest.size() > 5 && rest.compare(0, 2, " (") == 0 && rest.compare(rest.size() - 3, 3, "ms)") == 0, std::string(key) + "-elapsed-format", p.msg);
  char* e = nullptr;
  auto const num = rest.substr(2, rest.size() - 5);
  auto const got = std::strtod(num.c_str(), &e);
  CHECK(e && *e == 0, std::string(key) + "-elapsed-number", p.msg);
  auto const want = static_cast<double>(ns) / 1e6;
  CHECK(std::abs(got - want) <= 0.00101 + want * 1e-5, std::string(key) + "-elapsed", "want ", want, " got ", got);
  c.count("timer-lines");
}
std::vector<std::string> lines(std::string const& s) {
  std::vector<std::string> o; std::istringstream i{s}; std::string l;
  while (std::getline(i, l)) o.push_back(l);
  return o;
}
}  // namespace

SCENARIO(timers, 2500, 60000) {
  auto const name = c.r.chance(1, 8) ? std::string{} : printable(c.r);
  fake_ns = static_cast<std::int64_t>(c.r.below(1000000000000ULL));
  auto const reads = clock_reads;
  now_window const w;
  struct ev { std::string head; std::int64_t ns; };
  std::vector<ev> want;
  std::string out;
  bool const scoped = c.r.chance(1, 2);
  auto const prints = c.r.below(4);
  std::vector<std::string> msgs;
  std::vector<std::int64_t> steps;
  for (std::size_t i = 0; i < prints; ++i) { msgs.push_back(printable(c.r)); }
  for (std::size_t i = 0; i <= prints + 3; ++i) steps.push_back(elapsed(c.r));
  bool const thrown = c.r.chance(1, 4);
  auto const t0 = fake_ns;
  {
    capture cap;
    if (scoped) {
      try {
        utl::scoped_timer t{name};
        for (std::size_t i = 0; i < prints; ++i) { fake_ns += steps[i]; t.print(msgs[i]); want.push_back({"[" + name + "] " + msgs[i], fake_ns - t0}); }
        fake_ns += steps[prints];
        want.push_back({"[" + name + "] finished", fake_ns - t0});
        if (thrown) throw 1;
      } catch (int) {}
    } else {
      utl::manual_timer t{name};
      for (std::size_t i = 0; i < prints; ++i) { fake_ns += steps[i]; t.print(msgs[i]); want.push_back({"[" + name + "] " + msgs[i], fake_ns - t0}); }
      auto const stops = c.r.below(3);
      for (std::size_t i = 0; i < stops; ++i) { fake_ns += steps[prints + i]; t.stop_and_print(); want.push_back({"[" + name + "] finished", fake_ns - t0}); }
    }
    out = cap.s.str();
  }
  auto const ls = lines(out);
  CHECK_EQ(want.size() + 1, ls.size(), "timer-line-count", out);
  auto const p0 = parse(ls[0]);
  CHECK(p0.ok && p0.lvl == "info" && w.ok(p0.ts), "timer-start-format", ls[0]);
  CHECK_EQ("[" + name + "] starting", p0.msg, "timer-start-text");
  for (std::size_t i = 0; i < want.size(); ++i) check_timer_line(c, ls[i + 1], w, want[i].head, want[i].ns, scoped ? "scoped-timer" : "manual-timer");
  c.count("controlled-clock-reads", clock_reads - reads);
  c.distinct(vf::hcomb(vf::hstr(name), vf::hcomb(prints, static_cast<std::uint64_t>(fake_ns - t0))));
  if (c.want_sample()) c.sample(ls.back());

  // timing macros
  auto const d = elapsed(c.r), d2 = elapsed(c.r);
  UTL_START_TIMING(x);
  fake_ns += d;
  auto const gms = UTL_GET_TIMING_MS(x), gus = UTL_GET_TIMING_US(x);
  UTL_STOP_TIMING(x);
  fake_ns += d2;
  CHECK_EQ(d / 1000000, static_cast<std::int64_t>(gms), "timing-get-ms"); CHECK_EQ(d / 1000, static_cast<std::int64_t>(gus), "timing-get-us");
  CHECK_EQ(d / 1000000, static_cast<std::int64_t>(UTL_TIMING_MS(x)), "timing-ms"); CHECK_EQ(d / 1000, static_cast<std::int64_t>(UTL_TIMING_US(x)), "timing-us");
  CHECK_EQ((d + d2) / 1000000, static_cast<std::int64_t>(UTL_GET_TIMING_MS(x)), "timing-get-later");
}
