// CSV table reader vs. the table the text was generated from.
#include "csv_gen.h"
#include "fdwatch.h"

using namespace csvg;
namespace {
using big = std::tuple<int, std::string, double, bool, cstr, lib_string, unsigned long, float>;
using owned = std::tuple<std::string, int, double, signed char, std::string>;
using single = std::tuple<std::string>;
using num = std::tuple<long, unsigned short>;

template <typename Tuple> struct models;
template <typename... T> struct models<std::tuple<T...>> { using type = std::tuple<model_t<T>...>; };

std::vector<std::string> names(vf::rng& r, std::size_t n, char sep) {
  std::set<std::string> u;
  std::vector<std::string> v;
  while (v.size() < n) {
    std::string s;
    switch (r.below(5)) {
      case 0: s = std::string(1, static_cast<char>('a' + r.below(26))); break;
      case 1: s = "name " + std::to_string(r.below(9)); break;
      case 2: s = "x" + std::string{sep} + std::to_string(r.below(9)); break;
      case 3: s = "\xc3\xa4" + std::to_string(r.below(9)); break;
      default: s = "col_" + std::to_string(r.below(20)); break;
    }
    if (u.insert(s).second) v.push_back(s);
  }
  return v;
}

template <typename T> void stale(T& x) {
  if constexpr (std::is_same_v<T, cstr>) x = cstr{"stale"};
  else if constexpr (std::is_same_v<T, lib_string>) x.set_owning("stale", 5U);
  else if constexpr (std::is_same_v<T, std::string>) x = "stale";
  else x = static_cast<T>(77);
}
template <typename Tuple, char Sep, bool File>
void table(vf::ctx& c) {
  auto& r = c.r;
  constexpr auto N = std::tuple_size_v<Tuple>;
  using M = typename models<Tuple>::type;
  auto const nm = names(r, N, Sep);
  auto const l = make_layout(r, nm, Sep);
  auto const mode = static_cast<unsigned>(r.below(3));
  std::string s = header_line(r, l, Sep);
  std::vector<M> exp;
  auto const rows = r.chance(1, 20) ? r.below(300) : r.below(8);
  for (std::uint64_t k = 0; k < rows; ++k) {
    M m{};
    s += eol(r, mode);
    s += data_line(r, l, Sep, [&](std::size_t i) {
      cell out;
      [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((I == i ? (void)[&] {
          using T = std::tuple_element_t<I, Tuple>;
          if (r.chance(1, 10)) { std::get<I>(m) = {}; return; }  // empty field
          auto [ce, v] = make<T>(r, Sep);
          out = ce;
          std::get<I>(m) = v;
        }() : (void)0), ...);
      }(std::make_index_sequence<N>{});
      return out;
    });
    exp.push_back(m);
  }
  if (r.chance(3, 4)) s += eol(r, mode);
  vf::note(vf::cat("csv sep=", Sep, " text=", s));
  utl::column_mapping<Tuple> cols;
  for (std::size_t i = 0; i < N; ++i) cols[i] = nm[i];
  auto check = [&](std::vector<Tuple> const& got, char const* key) {
    CHECK_EQ(exp.size(), got.size(), "row count", key, " sep=", Sep, " text=", s);
    for (std::size_t k = 0; k < got.size(); ++k) {
      [&]<std::size_t... I>(std::index_sequence<I...>) {
        ([&] {
          CHECK((same<std::tuple_element_t<I, Tuple>>(std::get<I>(exp[k]), std::get<I>(got[k]))), "value", key, " row ", k, " column ", nm[I],
                " got ", shown(std::get<I>(got[k])), " expected ", shown(std::get<I>(exp[k])), " sep=", Sep, " text=", s);
        }(), ...);
      }(std::make_index_sequence<N>{});
    }
    c.count("rows", got.size());
    c.count("values", got.size() * N);
  };
  gen::tight t{s};
  if constexpr (File) {
    auto const path = fdw::put("t.csv", s);
    { std::vector<Tuple> e(r.below(4)); utl::read_file<Tuple, Sep>(path.c_str(), e, cols); check(e, "read_file(path, entries)"); }
    check(utl::read_file<Tuple, std::string, Sep>(path, cols), "read_file(path)");
    ::unlink(path.c_str());
  }
  cstr const v{t.p, t.n};
  check(utl::read<Tuple, Sep>(v, cols), "read(text)");
  std::vector<Tuple> e(r.below(4));
  utl::read<Tuple, Sep>(v, e, cols);
  check(e, "read(text, entries)");
  utl::read<Tuple, Sep>(v, e, cols);
  check(e, "read(text, entries) again");
  // a vector that still holds another table
  e.resize(r.below(6));
  for (auto& x : e) std::apply([](auto&... f) { (stale(f), ...); }, x);
  utl::read<Tuple, Sep>(v, e, cols);
  check(e, "read(text, entries) after another table");
  c.count("tables", 1);
  if (rows) c.distinct(vf::hstr(s));
  if (rows && s.size() < 200 && c.want_sample(3)) c.sample(vf::cat(exp.size(), " rows: ", s), 3);
}
template <typename Tuple, bool File = false>
void any_sep(vf::ctx& c) {
  switch (c.r.below(4)) {
    case 0: table<Tuple, ';', File>(c); break;
    case 1: table<Tuple, '\t', File>(c); break;
    case 2: table<Tuple, '|', File>(c); break;
    default: table<Tuple, ',', File>(c); break;
  }
}
}  // namespace

SCENARIO(eight_columns, 7000, 400000) { any_sep<big>(c); }
SCENARIO(owned_columns, 2500, 150000) { any_sep<owned>(c); }
SCENARIO(one_column, 2500, 100000) { any_sep<single>(c); }
SCENARIO(two_numbers, 2500, 100000) { any_sep<num>(c); }
SCENARIO(files, 1500, 40000) { any_sep<owned, true>(c); }
SCENARIO(field_exhaustive, 1365, 21845) {  // every short field content, quoted and (where possible) bare, in every place of the row
  auto const f = gen::nth_string(c.idx, "\",a ");
  auto const ce = spell_string(f, ',');
  for (int quoted = 0; quoted < 2; ++quoted) {
    if (!quoted && ce.must_quote) continue;
    std::string e = f;
    if (quoted) { e = "\""; for (char ch : f) { e += ch; if (ch == '"') e += '"'; } e += '"'; }
    for (auto const* nl : {"\n", "\r\n", ""}) for (int place = 0; place < 3; ++place) {
      std::string s = "a,b,c\n";
      for (int i = 0; i < 3; ++i) s += std::string{i ? "," : ""} + (i == place ? e : "z");
      s += nl;
      if (*nl) { s += "q,r,s"; s += nl; }
      gen::tight t{s};
      vf::note(vf::cat("csv text=", s));
      auto const got = utl::read<std::tuple<std::string, std::string, std::string>>(cstr{t.p, t.n}, {{"a", "b", "c"}});
      CHECK_EQ((*nl ? 2U : 1U), got.size(), "field/rows", "text=", s);
      auto const a = std::array<std::string, 3>{std::get<0>(got[0]), std::get<1>(got[0]), std::get<2>(got[0])};
      for (int i = 0; i < 3; ++i) CHECK_EQ((i == place ? f : std::string{"z"}), a[static_cast<std::size_t>(i)], "field", "column ", i, " text=", s);
      if (*nl) CHECK(got[1] == std::make_tuple("q", "r", "s"), "field/next row", "text=", s);
      c.count("fields", 3);
    }
  }
  c.distinct(vf::hstr(f));
}
SCENARIO(large, 16, 160) {  // more rows, longer fields and lines than narrow counters hold
  auto& r = c.r;
  auto const rows = r.pick({255U, 256U, 257U, 32769U, 65536U, 65537U, 66000U});
  auto const longest = rows < 1000 ? r.pick({255U, 256U, 32768U, 65535U, 65536U, 65537U, 70000U, 140000U}) : 20U;
  auto const at = static_cast<unsigned>(r.below(rows));
  std::string const nl = r.chance(1, 2) ? "\n" : "\r\n";
  auto const body = [&](unsigned k) { return k == at ? std::string(longest, static_cast<char>('a' + k % 26)) + "\"" + std::string(longest / 3, ',') : "s" + std::to_string(k % 1000); };
  std::string s = "t,n";
  for (unsigned k = 0; k < rows; ++k) {
    s += nl; s += '"';
    for (char ch : body(k)) { s += ch; if (ch == '"') s += '"'; }
    s += "\"," + std::to_string(k * 3);
  }
  if (r.chance(1, 2)) s += nl;
  gen::tight t{s};
  vf::note(vf::cat("large csv rows=", rows, " longest=", longest, " at=", at));
  auto const got = utl::read<std::tuple<unsigned, std::string>>(cstr{t.p, t.n}, {{"n", "t"}});
  CHECK_EQ(static_cast<std::size_t>(rows), got.size(), "large/rows", "longest ", longest);
  for (unsigned k = 0; k < rows; ++k) CHECK(std::get<0>(got[k]) == k * 3 && std::get<1>(got[k]) == body(k), "large/value", "row ", k, " of ", rows, " longest ", longest, " number ", std::get<0>(got[k]), " text size ", std::get<1>(got[k]).size());
  c.count("values", rows);
  c.distinct(vf::hcomb(rows, longest));
}
SCENARIO(header_only, 12, 12) {
  std::string s = c.idx % 3 == 0 ? "a,b" : c.idx % 3 == 1 ? "b" : "x,y,a";
  s += c.idx / 3 == 0 ? "" : c.idx / 3 == 1 ? "\n" : c.idx / 3 == 2 ? "\r\n" : "\n\n";
  if (c.idx / 3 == 3) s.pop_back();
  gen::tight t{s};
  CHECK((utl::read<std::tuple<int, int>>(cstr{t.p, t.n}, {{"a", "b"}}).empty()), "header only", "text=", s);
}
SCENARIO(unescape, 1093, 29524) {  // doubled quotes become one
  auto const f = gen::nth_string(c.idx, "\"ab");
  std::string e;
  for (char ch : f) { e += ch; if (ch == '"') e += '"'; }
  std::string a = e;
  utl::unescape_quoted_string(a);
  CHECK_EQ(f, a, "unescape", "from ", e);
  gen::tight t{e};
  lib_string g;
  g.set_non_owning(t.p, static_cast<unsigned>(t.n));
  utl::unescape_quoted_string(g);
  CHECK_EQ(std::string_view{f}, g.view(), "unescape library string", "from ", e);
  CHECK(std::string_view(t.p, t.n) == e, "unescape changed the text", e);
  c.count("unescapes");
}
