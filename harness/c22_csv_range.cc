// Streaming CSV reader vs. the rows the text was generated from, and vs. the
// table reader.
#include "csv_gen.h"
#include "fdwatch.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "utl/pipes.h"

using namespace csvg;
namespace {
struct row8 {
  utl::csv_col<int, UTL_NAME("id")> a;
  utl::csv_col<std::string, UTL_NAME("name")> b;
  utl::csv_col<double, UTL_NAME("lat")> d;
  utl::csv_col<bool, UTL_NAME("on")> e;
  utl::csv_col<cstr, UTL_NAME("raw")> f;
  utl::csv_col<lib_string, UTL_NAME("text x")> g;
  utl::csv_col<unsigned long, UTL_NAME("big")> h;
  utl::csv_col<float, UTL_NAME("f")> i;
};
struct rowl {  // long column names, prefixes of each other
  utl::csv_col<unsigned, UTL_NAME("abcdefghijklmnopqrstuvwxyz0123")> n;
  utl::csv_col<std::string, UTL_NAME("abcdefghijklmnopqrstuvwxyz012")> t;
  utl::csv_col<std::string, UTL_NAME("abcdefghijklmnopqrstuvwxyz0124")> u;
};
struct row1 { utl::csv_col<std::string, UTL_NAME("only")> a; };
struct rowd {  // with own defaults
  utl::csv_col<int, UTL_NAME("n")> a{7};
  utl::csv_col<std::string, UTL_NAME("s")> b{std::string{"dflt"}};
  utl::csv_col<double, UTL_NAME("d")> d{2.5};
};
std::vector<std::string> names(row8*) { return {"id", "name", "lat", "on", "raw", "text x", "big", "f"}; }
std::vector<std::string> names(row1*) { return {"only"}; }
std::vector<std::string> names(rowd*) { return {"n", "s", "d"}; }
using t8 = std::tuple<int, std::string, double, bool, cstr, lib_string, unsigned long, float>;
using t1 = std::tuple<std::string>;
using td = std::tuple<int, std::string, double>;
template <typename R> struct tup;
template <> struct tup<row8> { using type = t8; };
template <> struct tup<row1> { using type = t1; };
template <> struct tup<rowd> { using type = td; };
template <typename Tuple> struct models;
template <typename... T> struct models<std::tuple<T...>> { using type = std::tuple<model_t<T>...>; };
template <typename R> typename models<typename tup<R>::type>::type defaults() {
  if constexpr (std::is_same_v<R, rowd>) return {7, "dflt", 2.5};
  else return {};
}

template <typename R, char Sep, bool File>
void stream(vf::ctx& c) {
  auto& r = c.r;
  using Tuple = typename tup<R>::type;
  constexpr auto N = std::tuple_size_v<Tuple>;
  using M = typename models<Tuple>::type;
  auto const nm = names(static_cast<R*>(nullptr));
  auto const l = make_layout(r, nm, Sep);
  auto const mode = static_cast<unsigned>(r.below(3));
  bool const bom = r.chance(1, 4);
  std::string s = header_line(r, l, Sep);
  std::vector<M> exp;
  auto const rows = r.chance(1, 20) ? r.below(200) : r.below(8);
  for (std::uint64_t k = 0; k < rows; ++k) {
    auto m = defaults<R>();
    s += eol(r, mode);
    s += data_line(r, l, Sep, [&](std::size_t i) {
      cell out;
      [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((I == i ? (void)[&] {
          using T = std::tuple_element_t<I, Tuple>;
          if (r.chance(1, 10)) return;  // empty field
          auto [ce, v] = make<T>(r, Sep);
          out = ce;
          if (!ce.text.empty()) std::get<I>(m) = v;
        }() : (void)0), ...);
      }(std::make_index_sequence<N>{});
      return out;
    });
    exp.push_back(m);
  }
  if (r.chance(3, 4)) s += eol(r, mode);
  auto const no_bom = s;
  if (bom) s = "\xEF\xBB\xBF" + s;
  vf::note(vf::cat("csv sep=", Sep, " text=", s));
  auto check_row = [&](R const& row, std::size_t k, char const* key) {
    CHECK(k < exp.size(), "extra row", key, " text=", s);
    auto const f = cista::to_tuple(row);
    [&]<std::size_t... I>(std::index_sequence<I...>) {
      ([&] {
        CHECK((same<std::tuple_element_t<I, Tuple>>(std::get<I>(exp[k]), std::get<I>(f).val())), "value", key, " row ", k, " column ", nm[I],
              " got ", shown(std::get<I>(f).val()), " expected ", shown(std::get<I>(exp[k])), " sep=", Sep, " text=", s);
      }(), ...);
    }(std::make_index_sequence<N>{});
    c.count("values", N);
  };
  auto check = [&](std::vector<R> const& got, char const* key) {
    CHECK_EQ(exp.size(), got.size(), "row count", key, " sep=", Sep, " text=", s);
    for (std::size_t k = 0; k < got.size(); ++k) check_row(got[k], k, key);
    c.count("rows", got.size());
  };
  gen::tight t{s};
  cstr const v{t.p, t.n};
  check(utl::line_range{utl::make_buf_reader(v)} | utl::csv<R, Sep>() | utl::vec(), "vec");
  {
    std::size_t k = 0;
    utl::line_range{utl::make_buf_reader(v)} | utl::csv<R, Sep>() | utl::for_each([&](R const& x) { check_row(x, k++, "for_each"); });
    CHECK_EQ(exp.size(), k, "for_each rows", "text=", s);
  }
  {
    auto rd = utl::make_buf_reader(v);
    check(utl::line_range{rd} | utl::csv<R, Sep>() | utl::vec(), "lvalue reader");
  }
  {  // composed with pipeline stages (pure functions of the row)
    auto const drop_text = [](std::string const& x) { return vf::hstr(x) % 3 == 1; };
    auto const text0 = [](auto const& x) { return shown(std::get<0>(cista::to_tuple(x)).val()); };
    auto const got = utl::line_range{utl::make_buf_reader(v)} | utl::csv<R, Sep>() |
                     utl::remove_if([&](R const& x) { return drop_text(text0(x)); }) |
                     utl::transform([&](R const& x) { return text0(x); }) | utl::vec();
    std::vector<std::string> want;
    for (auto const& m : exp) {
      auto const x = shown(std::get<0>(m));
      if (!drop_text(x)) want.push_back(x);
    }
    CHECK_EQ(want, got, "composed", "text=", s);
    auto const n = utl::line_range{utl::make_buf_reader(v)} | utl::csv<R, Sep>() | utl::count([](auto&&) { return true; });
    CHECK(static_cast<std::size_t>(n) == exp.size(), "count", "text=", s);
  }
  if constexpr (File) {
    auto const path = fdw::put("r.csv", s);
    check(utl::line_range{utl::mmap_reader{path.c_str()}} | utl::csv<R, Sep>() | utl::vec(), "mmap");
    ::unlink(path.c_str());
    c.count("files");
  }
  if constexpr (!std::is_same_v<R, rowd>) {  // the table reader agrees
    utl::column_mapping<Tuple> cols;
    for (std::size_t i = 0; i < N; ++i) cols[i] = nm[i];
    gen::tight t2{no_bom};
    auto const tab = utl::read<Tuple, Sep>(cstr{t2.p, t2.n}, cols);
    CHECK_EQ(exp.size(), tab.size(), "table rows", "text=", s);
    for (std::size_t k = 0; k < tab.size(); ++k) {
      [&]<std::size_t... I>(std::index_sequence<I...>) {
        (([&] { CHECK((same<std::tuple_element_t<I, Tuple>>(std::get<I>(exp[k]), std::get<I>(tab[k]))), "table value", " row ", k, " column ", nm[I], " text=", s); }()), ...);
      }(std::make_index_sequence<N>{});
    }
  }
  c.count(bom ? "with-bom" : "without-bom");
  if (rows) c.distinct(vf::hstr(s));
  if (rows && s.size() < 200 && c.want_sample(3)) c.sample(vf::cat(exp.size(), " rows: ", s), 3);
}
template <typename R, bool File = false>
void any_sep(vf::ctx& c) {
  switch (c.r.below(4)) {
    case 0: stream<R, ';', File>(c); break;
    case 1: stream<R, '\t', File>(c); break;
    default: stream<R, ',', File>(c); break;
  }
}
}  // namespace
#if PART == 1
SCENARIO(eight_fields, 3500, 250000) { any_sep<row8>(c); }
#elif PART == 2
SCENARIO(one_field, 2500, 100000) { any_sep<row1>(c); }
SCENARIO(files, 1000, 30000) { any_sep<row1, true>(c); }
#else
SCENARIO(large, 16, 160) {  // more rows, longer fields and lines than narrow counters hold
  auto& r = c.r;
  auto const rows = r.pick({255U, 256U, 257U, 32769U, 65536U, 65537U, 66000U});
  auto const longest = rows < 1000 ? r.pick({255U, 256U, 32768U, 65535U, 65536U, 65537U, 70000U, 140000U}) : 20U;
  auto const at = static_cast<unsigned>(r.below(rows));
  std::string const nl = r.chance(1, 2) ? "\n" : "\r\n";
  auto const body = [&](unsigned k) { return k == at ? std::string(longest, static_cast<char>('a' + k % 26)) + "\"" + std::string(longest / 3, ',') : "s" + std::to_string(k % 1000); };
  std::string const nm = "abcdefghijklmnopqrstuvwxyz012";
  std::string s = nm + "," + nm + "3," + nm + "4";
  for (unsigned k = 0; k < rows; ++k) {
    s += nl; s += '"';
    for (char ch : body(k)) { s += ch; if (ch == '"') s += '"'; }
    s += "\"," + std::to_string(k * 3) + (k % 2 ? ",z" : "");
  }
  if (r.chance(1, 2)) s += nl;
  gen::tight t{s};
  vf::note(vf::cat("large csv rows=", rows, " longest=", longest, " at=", at));
  auto const got = utl::line_range{utl::make_buf_reader(cstr{t.p, t.n})} | utl::csv<rowl>() | utl::vec();
  CHECK_EQ(static_cast<std::size_t>(rows), got.size(), "large/rows", "longest ", longest);
  for (unsigned k = 0; k < rows; ++k) CHECK(*got[k].n == k * 3 && *got[k].t == body(k) && *got[k].u == (k % 2 ? "z" : ""), "large/value", "row ", k, " of ", rows, " longest ", longest, " number ", *got[k].n, " text size ", got[k].t->size());
  c.count("values", rows);
  c.distinct(vf::hcomb(rows, longest));
}
SCENARIO(own_defaults, 3000, 200000) { any_sep<rowd, false>(c); }
SCENARIO(wrapper, 200, 5000) {
  auto const x = static_cast<int>(c.r.below(1000));
  utl::csv_col<std::string, UTL_NAME("q")> q;
  CHECK(q.val().empty() && (*q).empty(), "csv_col default");
  q.val() = std::to_string(x);
  CHECK(*q == std::to_string(x) && q->size() == std::to_string(x).size(), "csv_col access");
  auto const& cq = q;
  CHECK(*cq == q.val() && cq.val() == q.val() && cq->size() == q->size(), "csv_col const access");
  std::string const s = q;
  CHECK(s == *q, "csv_col conversion");
  utl::csv_col<int, UTL_NAME("q")> i{x};
  CHECK(*i == x && i == x, "csv_col value");
  *i = x + 1;
  CHECK(i.val() == x + 1, "csv_col assignment");
}
#endif
