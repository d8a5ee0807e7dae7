// split<Ts...> vs. the typed columns the line was generated from.
#include "csv_gen.h"
#include "utl/parser/split.h"

using namespace csvg;
namespace {
template <typename T>
std::pair<cell, model_t<T>> col(vf::rng& r, char sep) {
  auto [ce, v] = make<T>(r, sep);
  if constexpr (std::is_arithmetic_v<T>) {  // split does not skip blanks
    auto const n = ce.text.find_first_not_of(' ');
    if (n != std::string::npos) ce.text.erase(0, n);
  } else {  // quotes are honoured, doubled quotes stay as they are: none generated
    for (auto& ch : ce.text) if (ch == '"') ch = '_';
    ce = spell_string(ce.text, sep);
    v = ce.text;
  }
  return {ce, v};
}
template <char Sep, typename... T>
void line(vf::ctx& c) {
  auto& r = c.r;
  constexpr auto N = sizeof...(T);
  std::tuple<model_t<T>...> exp{};
  auto const have = r.chance(1, 3) ? r.below(N + 1) : N;  // columns present
  std::string s;
  std::size_t i = 0;
  std::apply([&](auto&... e) {
    ([&]<typename U>(std::type_identity<U>, auto& m) {
      if (i < have) {
        if (i) s += Sep;
        if (!r.chance(1, 8)) { auto [ce, v] = col<U>(r, Sep); s += encode(r, ce); m = v; }
        else if (r.chance(1, 3)) s += "\"\"";
      }
      ++i;
    }(std::type_identity<T>{}, e), ...);
  }, exp);
  std::size_t extra = 0;
  if (have == N && r.chance(1, 4)) for (extra = 1 + r.below(3); extra && s.size() < 100000; --extra) { s += Sep; s += encode(r, spell_string(field_text(r, Sep, true), Sep)); }
  gen::tight t{s};
  vf::note(vf::cat("split sep=", Sep, " line=", s));
  auto const got = utl::split<Sep, T...>(cstr{t.p, t.n});
  [&]<std::size_t... I>(std::index_sequence<I...>) {
    ([&] {
      using U = std::tuple_element_t<I, std::tuple<T...>>;
      CHECK(same<U>(std::get<I>(exp), std::get<I>(got)), "value", "column ", I, " of ", N, " sep=", Sep, " line=", s, " got ", shown(std::get<I>(got)), " expected ", shown(std::get<I>(exp)));
      if constexpr (std::is_same_v<U, cstr>) CHECK(t.inside(std::get<I>(got).str, std::get<I>(got).len), "view outside the line", "line=", s);
    }(), ...);
  }(std::make_index_sequence<N>{});
  c.count("columns", N);
  if (have < N) c.count("short-lines");
  if (!s.empty()) c.distinct(vf::hstr(s));
  if (!s.empty() && s.size() < 100 && c.want_sample()) c.sample(s);
}
template <char Sep>
void shape(vf::ctx& c) {
  switch (c.r.below(6)) {
    case 0: line<Sep, int>(c); break;
    case 1: line<Sep, std::string, int>(c); break;
    case 2: line<Sep, cstr, double, bool>(c); break;
    case 3: line<Sep, int, int, int, int, int>(c); break;
    case 4: line<Sep, lib_string, cstr, std::string, cstr>(c); break;
    default: line<Sep, unsigned long, cstr, float, signed char, std::string, bool, double>(c); break;
  }
}
}  // namespace
SCENARIO(lines, 15000, 800000) {
  switch (c.r.below(4)) {
    case 0: shape<';'>(c); break;
    case 1: shape<'\t'>(c); break;
    case 2: shape<' '>(c); break;
    default: shape<','>(c); break;
  }
}
SCENARIO(default_separator, 500, 10000) {
  auto& r = c.r;
  auto const a = static_cast<int>(r.range(-500, 500)), b = static_cast<int>(r.range(0, 99));
  auto const s = std::to_string(a) + "," + std::to_string(b);
  gen::tight t{s};
  auto const [x, y, z] = utl::split<',', int, int, int>(cstr{t.p, t.n});
  CHECK(x == a && y == b && z == 0, "default", "line=", s);
}
SCENARIO(long_columns, 16, 160) {
  auto const n = c.r.pick({255U, 256U, 257U, 32768U, 65535U, 65536U, 65537U, 140000U});
  auto const a = std::string(n, 'p'), b = std::string(n / 2, 'q') + std::string(n / 2, ',');
  auto const q = "\"" + b + "\"";
  auto const s = a + "," + q + ",17," + a;
  gen::tight t{s};
  vf::note(vf::cat("split of long columns, n=", n));
  auto const [x, y, z, w] = utl::split<',', cstr, std::string, int, cstr>(cstr{t.p, t.n});
  CHECK(x.view() == a && y == b && z == 17 && w.view() == a, "long columns", "n=", n, " sizes ", x.len, " ", y.size(), " ", w.len, " number ", z);
  c.count("columns", 4);
  c.distinct(n);
}
SCENARIO(exhaustive, 1365, 21845) {  // three views of every short line
  auto const f = gen::nth_string(c.idx, ",a;1");
  std::vector<std::string> parts{""};
  for (char ch : f) { if (ch == ',') parts.emplace_back(); else parts.back() += ch; }
  parts.resize(3);
  gen::tight t{f};
  auto const [x, y, z] = utl::split<',', cstr, cstr, cstr>(cstr{t.p, t.n});
  CHECK(x.view() == parts[0] && y.view() == parts[1] && z.view() == parts[2], "views", "line=", f);
  c.distinct(vf::hstr(f));
}
