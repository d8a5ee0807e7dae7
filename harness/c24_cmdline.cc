// Command line flags vs. a scan model; description and printed values.
#include "gen.h"
#include "utl/cmd_line_parser.h"
#include <cmath>

using utl::cstr;
namespace {
struct meta { std::string lng, shrt, desc; bool req; char kind; };  // kind: b i u s d c

struct opt_a {
  utl::cmd_line_flag<bool, UTL_LONG("--verbose"), UTL_SHORT("-v"), UTL_DESC("more output")> verbose;
  utl::cmd_line_flag<int, UTL_LONG("--port"), UTL_SHORT("-p"), UTL_DESC("port number"), utl::required> port;
  utl::cmd_line_flag<std::string, UTL_LONG("--name"), UTL_SHORT("-n"), UTL_DESC("the name"), utl::required> name;
  utl::cmd_line_flag<std::string, UTL_LONG("--out"), UTL_DESC("output path")> out{std::string{"a.out"}};
  utl::cmd_line_flag<double, UTL_SHORT("-f"), UTL_DESC("factor of scaling")> factor{1.5};
  utl::cmd_line_flag<unsigned long, UTL_LONG("--big"), UTL_SHORT("-B"), UTL_DESC("a big number")> big{42UL};
  utl::cmd_line_flag<bool, UTL_LONG("--ver"), UTL_SHORT("-V"), UTL_DESC("print the version")> ver;
  static std::vector<meta> metas() {
    return {{"--verbose", "-v", "more output", false, 'b'}, {"--port", "-p", "port number", true, 'i'},
            {"--name", "-n", "the name", true, 's'},        {"--out", "", "output path", false, 's'},
            {"", "-f", "factor of scaling", false, 'd'},    {"--big", "-B", "a big number", false, 'u'},
            {"--ver", "-V", "print the version", false, 'b'}};
  }
  static std::vector<std::string> defaults() { return {"false", "0", "", "a.out", "1.5", "42", "false"}; }
};
struct opt_b {  // one name only, everything optional, defaults set
  utl::cmd_line_flag<int, UTL_SHORT("-i"), UTL_DESC("an int")> i{-3};
  utl::cmd_line_flag<bool, UTL_LONG("--flag"), UTL_DESC("switched on by default")> flag{true};
  utl::cmd_line_flag<std::string, UTL_LONG("-"), UTL_SHORT("--"), UTL_DESC("odd names")> odd{std::string{"x"}};
  static std::vector<meta> metas() { return {{"", "-i", "an int", false, 'i'}, {"--flag", "", "switched on by default", false, 'b'}, {"-", "--", "odd names", false, 's'}}; }
  static std::vector<std::string> defaults() { return {"-3", "true", "x"}; }
};
struct opt_c {  // required ones with only a short or only a long name
  utl::cmd_line_flag<std::string, UTL_SHORT("-s"), UTL_DESC("short only"), utl::required> s;
  utl::cmd_line_flag<int, UTL_LONG("--long"), UTL_DESC("long only"), utl::required> l;
  utl::cmd_line_flag<bool, UTL_LONG("--yes"), UTL_SHORT("-y"), UTL_DESC("must agree"), utl::required> y;
  static std::vector<meta> metas() { return {{"", "-s", "short only", true, 's'}, {"--long", "", "long only", true, 'i'}, {"--yes", "-y", "must agree", true, 'b'}}; }
  static std::vector<std::string> defaults() { return {"", "0", "false"}; }
};
struct opt_d {  // a single flag
  utl::cmd_line_flag<std::string, UTL_LONG("--only"), UTL_SHORT("-o"), UTL_DESC("the only one")> only;
  static std::vector<meta> metas() { return {{"--only", "-o", "the only one", false, 's'}}; }
  static std::vector<std::string> defaults() { return {""}; }
};

struct opt_e {  // long names that differ only at the end, or by being longer
  utl::cmd_line_flag<int, UTL_LONG("--abcdefghijklmnopqrstuvwxyz12"), UTL_SHORT("-a"), UTL_DESC("thirty characters in the name")> a{1};
  utl::cmd_line_flag<std::string, UTL_LONG("--abcdefghijklmnopqrstuvwxyz1"), UTL_SHORT("-abcdefghijklmnop"), UTL_DESC("twenty-nine, and a long short")> b{std::string{"d"}};
  utl::cmd_line_flag<bool, UTL_LONG("--abcdefghijklmnopqrstuvwxyz13"), UTL_DESC("other last character, 30 here")> d;
  utl::cmd_line_flag<std::string, UTL_LONG("--abcdefghijklmno"), UTL_DESC("a prefix of the others"), utl::required> e;
  static std::vector<meta> metas() {
    return {{"--abcdefghijklmnopqrstuvwxyz12", "-a", "thirty characters in the name", false, 'i'},
            {"--abcdefghijklmnopqrstuvwxyz1", "-abcdefghijklmnop", "twenty-nine, and a long short", false, 's'},
            {"--abcdefghijklmnopqrstuvwxyz13", "", "other last character, 30 here", false, 'b'},
            {"--abcdefghijklmno", "", "a prefix of the others", true, 's'}};
  }
  static std::vector<std::string> defaults() { return {"1", "d", "false", ""}; }
};

template <typename V> std::string show(V const& v) {
  if constexpr (std::is_same_v<V, bool>) return v ? "true" : "false";
  else if constexpr (std::is_same_v<V, std::string>) return v;
  else if constexpr (std::is_floating_point_v<V>) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
  else return std::to_string(v);
}
bool same(char kind, std::string const& exp, std::string const& got, double eps) {
  if (kind != 'd') return exp == got;
  auto const a = std::strtod(exp.c_str(), nullptr), b = std::strtod(got.c_str(), nullptr);
  return std::fabs(a - b) <= eps * std::fabs(a) + 1e-12;
}
template <typename O> std::vector<std::string> values(O const& o) {
  std::vector<std::string> v;
  std::apply([&](auto const&... f) { (v.push_back(show(f.val())), ...); }, cista::to_tuple(o));
  return v;
}
std::vector<std::string> split_lines(std::string const& s) {
  std::vector<std::string> v{""};
  for (char ch : s) { if (ch == '\n') v.emplace_back(); else v.back() += ch; }
  return v;
}
std::vector<std::string> words(std::string const& s) {
  std::vector<std::string> v;
  std::istringstream in{s};
  for (std::string w; in >> w;) v.push_back(w);
  return v;
}
bool has(std::vector<std::string> const& v, std::string const& x) { return std::find(v.begin(), v.end(), x) != v.end(); }

template <typename O>
void parse(vf::ctx& c) {
  auto& r = c.r;
  auto const ms = O::metas();
  auto const names = [&] { std::vector<std::string> n; for (auto const& m : ms) { if (!m.lng.empty()) n.push_back(m.lng); if (!m.shrt.empty()) n.push_back(m.shrt); } return n; }();
  std::vector<std::string> args;
  if (!r.chance(1, 20)) args.push_back(r.pick({"prog", "./a/b", "x"}));
  auto longer = [&](std::string s) {  // a long argument that begins with a flag name, up to and beyond 2^8, 2^16 characters
    auto const n = r.chance(1, 12) ? 65500 + r.below(100) : r.chance(1, 2) ? 240 + r.below(40) : 20 + r.below(1200);
    auto const fill = r.pick({'x', '-', '=', '5'});
    while (s.size() < n) s += fill;
    return s;
  };
  auto value = [&](char kind) -> std::string {
    switch (kind) {
      case 'i': return std::to_string(r.chance(1, 5) ? (r.chance(1, 2) ? std::numeric_limits<int>::min() : std::numeric_limits<int>::max()) : static_cast<int>(r.range(-999, 999)));
      case 'u': return std::to_string(r.chance(1, 4) ? r.next() : r.below(1000));
      case 'd': { char b[40]; std::snprintf(b, sizeof b, "%.*f", static_cast<int>(r.below(5)), (r.unit() - 0.5) * 5000); return b; }
      default: {
        if (r.chance(1, 6)) return r.pick(names);  // looks like a flag
        if (r.chance(1, 25)) return longer(r.pick(names));
        auto s = r.chance(1, 3) ? gen::bytes(r, 1 + r.below(8), "-=a b", 100) : "w" + gen::word(r);
        return s;
      }
    }
  };
  auto junk = [&] {
    auto n = r.pick(names);
    if (r.chance(1, 8)) return longer(n);
    switch (r.below(6)) {
      case 0: return n + "x";
      case 1: return n.substr(0, n.size() - 1) + (n.size() == 1 ? "?" : "");
      case 2: return n + "=5";
      case 3: return "x" + n;
      case 4: { for (auto& ch : n) if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32); return n + "_"; }
      default: return "plain" + std::to_string(r.below(9));
    }
  };
  for (auto n = r.below(9); n; --n) {
    if (r.chance(1, 4)) { args.push_back(junk()); if (args.back().size() > 200) c.count("long arguments"); continue; }
    auto const& m = r.pick(ms);
    args.push_back(m.lng.empty() || (!m.shrt.empty() && r.chance(1, 2)) ? m.shrt : m.lng);
    if (m.kind != 'b') args.push_back(value(m.kind));
  }
  if (r.chance(1, 2)) for (auto const& m : ms) if (m.req) { args.push_back(m.shrt.empty() ? m.lng : m.shrt); if (m.kind != 'b') args.push_back(value(m.kind)); }
  if (r.chance(1, 8)) {  // a flag without its value at the end
    auto const& m = r.pick(ms);
    auto const given = has(args, m.lng) || has(args, m.shrt);
    if (m.kind != 'b' && !(m.req && given)) args.push_back(m.lng.empty() ? m.shrt : m.lng);
  }
  // model
  auto exp = O::defaults();
  std::set<std::string> missing;
  bool unspecified = false;
  for (std::size_t k = 0; k < ms.size(); ++k) {
    auto const& m = ms[k];
    bool found = false, tail = false;
    for (std::size_t i = 0; i < args.size(); ++i) {
      if (args[i].empty() || (args[i] != m.lng && args[i] != m.shrt)) continue;
      if (m.kind == 'b') { exp[k] = "true"; found = true; }
      else if (i + 1 < args.size()) {
        exp[k] = args[i + 1];
        found = true;
        if (m.kind != 's') {  // the value must be one
          auto const& v = args[i + 1];
          auto const ok = m.kind == 'd' ? v.find_first_not_of("-.0123456789") == std::string::npos : v.find_first_not_of(m.kind == 'u' ? "0123456789" : "-0123456789") == std::string::npos;
          if (!ok || v.find_first_of("0123456789") == std::string::npos) unspecified = true;
          if (v.size() > 20) unspecified = true;  // not a value of the type
        }
      } else tail = true;
    }
    if (tail && found && m.req) unspecified = true;
    if (m.req && !found) missing.insert(m.lng.empty() ? m.shrt : m.lng);
  }
  if (unspecified) { c.count("unspecified"); return; }
  std::deque<gen::tight> mem;
  std::vector<char const*> argv;
  for (auto const& a : args) { mem.emplace_back(std::string_view{a.c_str(), a.size() + 1}); argv.push_back(mem.back().p); }
  auto const shown_args = vf::str(args);
  vf::note(shown_args);
  argv.shrink_to_fit();
  try {
    auto const o = utl::parse_flags<O>(static_cast<int>(argv.size()), argv.data());
    CHECK(missing.empty(), "missing required flag accepted", "args=", shown_args, " missing ", missing);
    auto const got = values(o);
    for (std::size_t k = 0; k < ms.size(); ++k)
      CHECK(same(ms[k].kind, exp[k], got[k], 1e-12), "value", "flag ", ms[k].lng, "/", ms[k].shrt, " got ", got[k], " expected ", exp[k], " args=", shown_args);
    c.count("parsed");
    // printing
    auto const lines = split_lines(utl::print_flags(o));
    if (std::none_of(exp.begin(), exp.end(), [](auto const& v) { return v.find('\n') != std::string::npos; })) {
      CHECK_EQ(ms.size(), lines.size(), "print/lines", "args=", shown_args);
      for (std::size_t k = 0; k < ms.size(); ++k) {
        auto const w = words(lines[k]);
        if (!ms[k].lng.empty()) CHECK(has(w, ms[k].lng), "print/long name", lines[k]);
        if (!ms[k].shrt.empty()) CHECK(has(w, ms[k].shrt), "print/short name", lines[k]);
        if (ms[k].kind == 's') CHECK(lines[k].size() >= exp[k].size() && lines[k].ends_with(exp[k]), "print/value", "line ", lines[k], " value ", exp[k]);
        else CHECK(!w.empty() && same(ms[k].kind, exp[k], w.back(), 1e-5), "print/value", "line ", lines[k], " value ", exp[k]);
      }
      c.count("printed");
    }
  } catch (vf::stop_case const&) { throw; }
  catch (std::exception const& e) {
    CHECK(!missing.empty(), "threw", "args=", shown_args, " what=", e.what());
    auto const w = words(e.what());
    CHECK(std::any_of(missing.begin(), missing.end(), [&](auto const& m) {
            for (auto const& x : ms) if (x.lng == m || x.shrt == m) return std::string_view{e.what()}.find(m) != std::string_view::npos;
            return false; }),
          "exception does not name a missing flag", "args=", shown_args, " what=", e.what(), " missing ", missing);
    c.count("missing");
  }
  c.distinct(vf::hstr(shown_args));
  if (c.want_sample(3) && args.size() > 3) c.sample(shown_args, 3);
}
template <typename O>
void describe(vf::ctx& c) {
  auto const ms = O::metas();
  auto const lines = split_lines(utl::description<O>());
  CHECK_EQ(ms.size(), lines.size(), "description/lines");
  for (auto const& m : ms) {
    int n = 0;
    for (auto const& l : lines) {
      if (l.find(m.desc) == std::string::npos) continue;
      ++n;
      auto const w = words(l);
      if (!m.lng.empty()) CHECK(has(w, m.lng), "description/long name", "line ", l);
      if (!m.shrt.empty()) CHECK(has(w, m.shrt), "description/short name", "line ", l);
      CHECK_EQ(m.req, l.find('*') != std::string::npos, "description/required mark", "line ", l);
      for (auto const& o : ms) if (o.desc != m.desc) CHECK((o.lng.empty() || !has(w, o.lng)) && (o.shrt.empty() || !has(w, o.shrt)), "description/other flag", "line ", l);
    }
    CHECK_EQ(1, n, "description/missing", "flag ", m.lng, " ", m.shrt);
  }
  c.distinct(vf::hstr(lines[0]));
  c.count("described");
}
}  // namespace
SCENARIO(many_flags, 9000, 500000) { parse<opt_a>(c); }
SCENARIO(odd_names, 5000, 250000) { parse<opt_b>(c); }
SCENARIO(all_required, 5000, 250000) { parse<opt_c>(c); }
SCENARIO(single_flag, 3000, 100000) { parse<opt_d>(c); }
SCENARIO(long_names, 4000, 200000) { parse<opt_e>(c); }
void name(vf::ctx& c, std::string const& x, char const* l, char const* s, char const* d) {
  CHECK(x == l && x == s && x == d, "name", x, " became ", l, " / ", s, " / ", d);
  c.count("names");
}
SCENARIO(name_literals, 1, 1) {  // names of every length
#define L(x) { using f_long = utl::cmd_line_flag<int, UTL_LONG(x)>; using f_short = utl::cmd_line_flag<int, UTL_SHORT(x)>; using f_desc = utl::cmd_line_flag<int, UTL_DESC(x)>; name(c, x, f_long::long_, f_short::short_, f_desc::desc_); }
  L("a")
  L("ab")
  L("abc")
  L("abcd")
  L("abcde")
  L("abcdef")
  L("abcdefg")
  L("abcdefgh")
  L("abcdefghi")
  L("abcdefghij")
  L("abcdefghijk")
  L("abcdefghijkl")
  L("abcdefghijklm")
  L("abcdefghijklmn")
  L("abcdefghijklmno")
  L("abcdefghijklmnop")
  L("abcdefghijklmnopq")
  L("abcdefghijklmnopqr")
  L("abcdefghijklmnopqrs")
  L("abcdefghijklmnopqrst")
  L("abcdefghijklmnopqrstu")
  L("abcdefghijklmnopqrstuv")
  L("abcdefghijklmnopqrstuvw")
  L("abcdefghijklmnopqrstuvwx")
  L("abcdefghijklmnopqrstuvwxy")
  L("abcdefghijklmnopqrstuvwxyz")
  L("abcdefghijklmnopqrstuvwxyz0")
  L("abcdefghijklmnopqrstuvwxyz01")
  L("abcdefghijklmnopqrstuvwxyz012")
  L("abcdefghijklmnopqrstuvwxyz0123")
#undef L
}
SCENARIO(description, 10, 10) { switch (c.idx % 5) { case 4: describe<opt_e>(c); break; case 0: describe<opt_a>(c); break; case 1: describe<opt_b>(c); break; case 2: describe<opt_c>(c); break; default: describe<opt_d>(c); break; } }
SCENARIO(print_defaults, 2, 2) {
  opt_b const o{};
  auto const l = split_lines(utl::print_flags(o));
  CHECK_EQ(3U, l.size(), "print defaults");
  CHECK(l[0].ends_with(" -3") && l[1].ends_with(" true") && l[2].ends_with(" x"), "print defaults", vf::str(l));
}
SCENARIO(flag_object, 200, 2000) {
  utl::cmd_line_flag<int, UTL_SHORT("-q"), UTL_DESC("q")> f, g{static_cast<int>(c.idx)};
  CHECK(f.val() == 0 && *f == 0, "flag default");
  CHECK(g.val() == static_cast<int>(c.idx) && *g == g.val() && static_cast<int>(g) == g.val(), "flag value");
  auto const& cg = g;
  CHECK(*cg == g.val() && cg.val() == g.val(), "flag const access");
  *f = 3; CHECK(f.val() == 3, "flag assignment"); f.val() = 4; CHECK(*f == 4, "flag assignment");
}
SCENARIO(many_arguments, 40, 1000) {  // the flags that count come last, behind thousands of others
  auto const n = c.r.pick({127u, 255u, 257u, 1000u, 4097u, 33000u, 66000u});
  std::vector<std::string> args{"prog"};
  for (unsigned i = 0; i < n; ++i) args.push_back(c.r.chance(1, 3) ? "--other" + std::to_string(i) : "x" + std::to_string(c.r.below(100)));
  auto const ms = opt_b::metas();
  auto exp = opt_b::defaults();
  auto const where = c.r.below(n - 1);
  for (std::size_t k = 0; k < ms.size(); ++k) {
    auto const& m = ms[k];
    auto const v = m.kind == 'b' ? std::string{"true"} : std::to_string(c.r.below(1000));
    auto const give = [&](std::string const& val) { args.push_back(m.lng.empty() ? m.shrt : m.lng); if (m.kind != 'b') args.push_back(val); };
    if (!m.req && c.r.chance(1, 4)) continue;
    give(v);
    exp[k] = v;
    if (m.kind != 'b' && c.r.chance(1, 3)) { args[1 + where] = m.lng.empty() ? m.shrt : m.lng; args[2 + where] = "77"; }  // an earlier occurrence loses
  }
  std::vector<char const*> argv;
  for (auto const& a : args) argv.push_back(a.c_str());
  try {
    auto const o = utl::parse_flags<opt_b>(static_cast<int>(argv.size()), argv.data());
    auto const got = values(o);
    for (std::size_t k = 0; k < ms.size(); ++k) CHECK(same(ms[k].kind, exp[k], got[k], 1e-12), "many arguments/value", "flag ", ms[k].lng, "/", ms[k].shrt, " got ", got[k], " expected ", exp[k], " of ", args.size());
  } catch (vf::stop_case const&) { throw; } catch (std::exception const& e) { c.violate("many arguments/threw", e.what()); }
  c.count("parsed");
  c.distinct(vf::hcomb(n, where));
}
