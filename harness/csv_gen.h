// Typed CSV cells: spelled text plus the value it denotes.
#pragma once
#include "gen.h"
#include "utl/parser/csv.h"
#include <cmath>

namespace csvg {
using utl::cstr;
using lib_string = cista::raw::generic_string;

template <typename T> struct model { using type = T; };
template <> struct model<cstr> { using type = std::string; };
template <> struct model<lib_string> { using type = std::string; };
template <typename T> using model_t = typename model<T>::type;

template <typename T>
bool same(model_t<T> const& m, T const& v) {
  if constexpr (std::is_same_v<T, cstr>) return std::string_view{m} == v.view();
  else if constexpr (std::is_same_v<T, lib_string>) return m == v.view();
  else if constexpr (std::is_same_v<T, float>) return std::fabs(m - v) <= 1e-5F * std::fabs(m) + 1e-30F;
  else if constexpr (std::is_same_v<T, double>) return std::fabs(m - v) <= 1e-13 * std::fabs(m) + 1e-200;
  else return m == v;
}
template <typename T> std::string shown(T const& v) {
  if constexpr (std::is_same_v<T, cstr> || std::is_same_v<T, lib_string>) return vf::esc(v.view());
  else if constexpr (std::is_same_v<T, std::string>) return vf::esc(v);
  else return vf::str(v);
}

struct cell { std::string text; bool must_quote = false; };

// text of a string field; inner quotes only where they are read back unescaped
inline std::string field_text(vf::rng& r, char sep, bool quotes) {
  auto const k = r.below(8);
  auto n = r.chance(1, 40) ? r.size(3000) : r.below(10);
  std::string hot = "ab ";
  hot += sep;
  if (quotes) hot += "\"\"";
  if (k == 0) n = 0;
  std::string s = k < 3 ? gen::bytes(r, n, "abcXYZ", 100)
                        : gen::bytes(r, n, hot, k < 6 ? 60 : 100);
  if (r.chance(1, 8)) {  // texts that formats elsewhere treat specially
    s.clear();
    for (auto n = 1 + r.below(3); n; --n) s += r.pick({std::string{"\xEF\xBB\xBF"}, std::string{"\\"}, std::string{"\\\""}, std::string{"#x"}, std::string{"//"}, std::string(1, '\0'), std::string{"\x1a"}, std::string{"\t"}, std::string{"'"}, std::string{"NULL"}, std::string{"{}"}, std::string{"%s"}, std::string{"\xc3\xa4"}, std::string{"="}, std::string{" \" "}, std::string{"\v\f"}, std::string{"\xc2\xa0"}, std::string{"\x85"}});
  }
  for (auto& ch : s) {
    if (ch == '\n' || ch == '\r') ch = ';';
    if (ch == '"' && !quotes) ch = '\'';
  }
  return s;
}
inline cell spell_string(std::string const& s, char sep) {
  bool const lead = !s.empty() && s[0] == '"';
  return {s, lead || s.find(sep) != std::string::npos || s.find("\"\"") != std::string::npos};
}
template <typename T>
std::pair<cell, model_t<T>> make(vf::rng& r, char sep) {
  if constexpr (std::is_same_v<T, bool>) {
    bool const v = r.chance(1, 2);
    std::string s = v ? "true" : "false";
    if (r.chance(1, 5)) for (auto& ch : s) if (r.chance(1, 2)) ch = static_cast<char>(ch - 32);
    return {cell{(r.chance(1, 6) ? " " : "") + s}, v};
  } else if constexpr (std::is_integral_v<T>) {
    using L = std::numeric_limits<T>;
    T const v = r.chance(1, 8) ? L::max() : r.chance(1, 8) ? L::min() : r.chance(1, 3) ? static_cast<T>(r.next()) : static_cast<T>(r.below(30));
    auto s = std::to_string(v);
    if (r.chance(1, 8)) s.insert(s[0] == '-' ? 1 : 0, "00");
    return {cell{std::string(r.chance(1, 4) ? 1 + r.below(3) : 0, ' ') + s}, v};
  } else if constexpr (std::is_floating_point_v<T>) {
    char b[64];
    std::snprintf(b, sizeof b, "%.*f", static_cast<int>(r.below(9)), (r.unit() - 0.5) * std::pow(10.0, static_cast<double>(r.range(0, 9))));
    return {cell{std::string(r.chance(1, 4) ? 1 + r.below(3) : 0, ' ') + b}, static_cast<T>(std::strtod(b, nullptr))};
  } else {
    auto s = field_text(r, sep, !std::is_same_v<T, cstr>);
    return {spell_string(s, sep), s};
  }
}
inline std::string encode(vf::rng& r, cell const& c) {
  if (!c.must_quote && !r.chance(1, 5)) return c.text;
  std::string o = "\"";
  for (char ch : c.text) { o += ch; if (ch == '"') o += '"'; }
  return o + '"';
}
inline std::string eol(vf::rng& r, unsigned mode) { return mode == 0 ? "\n" : mode == 1 ? "\r\n" : r.chance(1, 2) ? "\n" : "\r\n"; }

// Column layout: which header column holds which defined field (-1 = unknown)
struct layout {
  std::vector<int> cols;
  std::vector<std::string> header;
};
template <typename Names>
layout make_layout(vf::rng& r, Names const& defined, char sep, std::size_t max_cols = 64) {
  layout l;
  std::vector<int> ids;
  for (int i = 0; i < static_cast<int>(defined.size()); ++i) if (!r.chance(1, 6)) ids.push_back(i);
  auto extra = r.chance(1, 20) ? max_cols - ids.size() : r.chance(1, 3) ? r.below(6) : 0;
  for (; extra; --extra) ids.push_back(-1);
  if (ids.empty()) ids.push_back(-1);
  for (std::size_t i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[r.below(i)]);
  std::set<std::string> used(defined.begin(), defined.end());
  int n = 0;
  for (auto id : ids) {
    std::string name;
    if (id >= 0) name = defined[static_cast<std::size_t>(id)];
    else do {
      // also prefixes/extensions of the defined names
      name = r.chance(1, 3) ? std::string{r.pick(defined)} + r.pick({"x", "_", " "}) : r.chance(1, 3) ? std::string{r.pick(defined)} : "u" + std::to_string(n);
      if (r.chance(1, 4)) name = name.substr(0, name.size() - 1);
      if (name.empty()) name = "?";
      ++n;
    } while (used.contains(name) && (name = name + std::to_string(n), used.contains(name)));
    used.insert(name);
    l.cols.push_back(id);
    l.header.push_back(name);
  }
  (void)sep;
  return l;
}
inline std::string header_line(vf::rng& r, layout const& l, char sep) {
  std::string s;
  for (std::size_t i = 0; i < l.header.size(); ++i) {
    if (i) s += sep;
    s += encode(r, spell_string(l.header[i], sep));
  }
  return s;
}
// One data line; present[i] tells whether defined field i got a non-empty text
template <typename Make>
std::string data_line(vf::rng& r, layout const& l, char sep, Make&& make_cell) {
  auto n = l.cols.size();
  if (r.chance(1, 6)) n = 1 + r.below(n);  // trailing fields missing
  std::string s;
  for (std::size_t i = 0; i < n; ++i) {
    if (i) s += sep;
    cell ce = l.cols[i] >= 0 ? make_cell(static_cast<std::size_t>(l.cols[i])) : spell_string(field_text(r, sep, true), sep);
    auto e = encode(r, ce);
    if (n == 1 && e.empty()) e = "\"\"";
    s += e;
  }
  if (n == l.cols.size() && r.chance(1, 12)) for (auto k = 1 + r.below(3); k; --k) s += sep + std::string{"extra"};
  return s;
}
}  // namespace csvg
