// cstr vs. std::string over texts in exactly sized heap blocks.
#include "gen.h"
#include "utl/parser/cstr.h"

using utl::cstr;
namespace {
std::string_view const hot{" \n\tab\0\xff\r\x80" "0A", 11};
std::string text(vf::rng& r, std::size_t max) {
  auto n = r.chance(1, 12) ? r.size(max) : r.below(14);
  if (n > max) n = max;
  auto k = r.below(4);
  if (k == 0) return gen::bytes(r, n, hot);
  if (k == 1) return gen::bytes(r, n, "ab");
  if (k == 2) return gen::bytes(r, n, " \n", 85);
  return gen::bytes(r, n, std::string_view{"a\0b", 3}, 90);
}
// clip like std::string_view::substr but with begin clamped
std::string_view clip(std::string_view s, std::size_t pos, std::size_t n) {
  pos = std::min(pos, s.size());
  return s.substr(pos, n);
}
std::size_t anypos(vf::rng& r, std::size_t len) {
  switch (r.below(6)) {
    case 0: return len;
    case 1: return len + 1 + r.below(5);
    case 2: return r.chance(1, 2) ? std::numeric_limits<std::size_t>::max() : std::size_t{1} << r.below(64);
    default: return r.below(len + 1);
  }
}
bool ascii(std::string_view s) { return std::all_of(s.begin(), s.end(), [](char c) { return static_cast<unsigned char>(c) < 0x80; }); }
int sgn(int x) { return x < 0 ? -1 : x > 0; }
// compares a returned view: bytes and that it lies in the text
#define SAME(exp, got, key)                                                                     \
  do {                                                                                          \
    std::string_view const e_ = (exp);                                                          \
    cstr const g_ = (got);                                                                      \
    CHECK(t.inside(g_.str, g_.len), key "/outside", "text=", s, " len=", g_.len);               \
    CHECK_EQ(std::string{e_}, std::string(g_.str ? g_.str : "", g_.str ? g_.len : 0), key, "text=", s); \
    CHECK(g_.len == 0 || g_.str == t.p + (e_.data() - s.data()), key "/position", "text=", s);  \
    c.count("views");                                                                           \
  } while (0)
}  // namespace

static void one(vf::ctx& c, std::string const& s0) {
  auto& r = c.r;
  std::string const s = s0;
  gen::tight t{s};
  cstr const v{t.p, t.n};
  auto const len = s.size();
  // basic access
  CHECK_EQ(len, v.length(), "length");
  CHECK_EQ(len == 0, v.empty(), "empty", s);
  CHECK_EQ(len != 0, v.valid(), "valid", s);
  CHECK_EQ(len != 0, static_cast<bool>(v), "operator bool", s);
  CHECK_EQ(s, std::string(v.begin(), v.end()), "iteration", s);
  CHECK_EQ(s, std::string(begin(v), end(v)), "adl iteration", s);
  CHECK_EQ(s, v.to_str(), "to_str", s);
  CHECK(v.view() == s && v.view().size() == len, "view", s);
  { cstr w = v; std::string_view sv = w; CHECK(sv == s, "conversion", s); }
  CHECK(v.data() == t.p && v.c_str() == t.p, "data", s);
  for (std::size_t i = 0; i < len && i < 50; ++i) CHECK(v[i] == s[i], "index", "text=", s, " i=", i);
  if (len) CHECK(v[len - 1] == s[len - 1], "index", s);
  // construction
  { cstr a{s}; CHECK(a.view() == s, "from string", s); }
  { cstr a{std::string_view{s}}; CHECK(a.view() == s, "from string_view", s); }
  { cstr a{t.p, t.p + t.n}; SAME(s, a, "from pointers"); }
  { cstr a{reinterpret_cast<unsigned char const*>(t.p), t.n}; SAME(s, a, "from unsigned char"); }
  { cstr a{s.c_str()}; CHECK(a.view() == std::string_view{s.c_str()}, "from c string", s); }
  { cstr a; a.assign(t.p, t.n); SAME(s, a, "assign"); CHECK(a == v, "assign equal", s); }
  // sub-strings
  for (int k = 0; k < 4; ++k) {
    auto const p = anypos(r, len), n = anypos(r, len);
    vf::note(vf::cat("substr text=", s, " p=", p, " n=", n));
    SAME(clip(s, p, n), v.substr(p, utl::size{n}), "substr(position,size)");
    auto const b = std::min(p, n), e = std::max(p, n);
    SAME(clip(s, b, std::min(e, len) - std::min(b, len)), v.substr(b, e), "substr(begin,end)");
    SAME(clip(s, p, std::string::npos), v.substr(p), "substr(begin)");
    SAME(clip(s, p, n == utl::field::MAX_SIZE ? std::string::npos : n), v.substr(utl::field{p, n}), "substr(field)");
    SAME(clip(s, p, std::string::npos), v.substr(utl::field{p, utl::field::MAX_SIZE}), "substr(field max)");
  }
  // trimming
  {
    auto sp = [](char ch) { return ch == ' ' || ch == '\n'; };
    std::size_t b = 0, e = len;
    while (b < len && sp(s[b])) ++b;
    SAME(std::string_view(s).substr(b), v.skip_whitespace_front(), "skip_whitespace_front");
    while (e > 0 && sp(s[e - 1])) --e;
    SAME(std::string_view(s).substr(0, e), v.skip_whitespace_back(), "skip_whitespace_back");
    SAME(b < e ? std::string_view(s).substr(b, e - b) : std::string_view(s).substr(std::min(b, len), 0), v.trim(), "trim");
    if (b || e < len) c.count("trimmed");
  }
  // advancing
  {
    auto const n = r.below(len + 1);
    cstr a = v;
    SAME(std::string_view(s).substr(n), a + n, "operator+");
    SAME(s, a, "operator+ leaves operand");
    cstr const& ref = (a += n);
    CHECK(&ref == &a, "operator+= result", s);
    SAME(std::string_view(s).substr(n), a, "operator+=");
    cstr b = v;
    for (std::size_t i = 0; i < n && i < 64; ++i) { cstr const& q = ++b; CHECK(&q == &b, "++ result"); }
    SAME(std::string_view(s).substr(std::min<std::size_t>(n, 64)), b, "operator++");
  }
  // needles
  for (int k = 0; k < 4; ++k) {
    std::string nd;
    switch (r.below(5)) {
      case 0: nd = text(r, 6); break;
      case 1: nd = std::string{clip(s, r.below(len + 1), r.below(5))}; break;
      case 2: { nd = std::string{clip(s, r.below(len + 1), 1 + r.below(5))}; if (!nd.empty()) nd.back() ^= static_cast<char>(1 << r.below(8)); break; }
      case 3: nd = s + std::string(r.below(2), 'a'); break;
      default: nd = std::string{clip(s, 0, r.below(len + 1))}; break;
    }
    gen::tight nt{nd};
    cstr n{nt.p, nt.n};
    vf::note(vf::cat("needle text=", s, " needle=", nd));
    auto const at = s.find(nd);
    CHECK_EQ(at != std::string::npos, v.contains(n), "contains", "text=", s, " needle=", nd);
    CHECK_EQ(std::string_view(s).starts_with(nd), v.starts_with(n), "starts_with", "text=", s, " needle=", nd);
    if (!nd.empty() || !s.empty()) {
      cstr w = v;
      CHECK_EQ(at == std::string::npos ? std::numeric_limits<std::size_t>::max() : at, w.substr_offset(n), "substr_offset", "text=", s, " needle=", nd);
    }
    c.count(at != std::string::npos ? "needle-found" : "needle-absent");
  }
  if (len > 0) c.distinct(vf::hstr(s));
}

static void compare(vf::ctx& c, std::string const& a, std::string const& b) {
  gen::tight ta{a}, tb{b};
  cstr x{ta.p, ta.n}, y{tb.p, tb.n};
  vf::note(vf::cat("compare ", a, " with ", b));
  bool const eq = a == b;
  CHECK_EQ(eq, x == y, "equal", a, " vs ", b);
  CHECK_EQ(eq, y == x, "equal", b, " vs ", a);
  CHECK_EQ(!eq, x != y, "unequal", a, " vs ", b);
  CHECK(x == x && !(x != x) && !(x < x), "reflexive", a);
  bool const lt = x < y, gt = y < x;
  CHECK_EQ(1, static_cast<int>(lt) + gt + eq, "trichotomy", a, " vs ", b);
  if (ascii(a) && ascii(b)) {
    CHECK_EQ(a < b, lt, "lexicographic", a, " vs ", b);
    CHECK_EQ(b < a, gt, "lexicographic", b, " vs ", a);
  }
  c.count(eq ? "equal" : "different");
}

SCENARIO(random_text, 6000, 400000) { one(c, text(c.r, 3000)); }
SCENARIO(long_needle, 5000, 200000) {  // needles around the sizes where search algorithms switch
  auto& r = c.r;
  auto const al = r.pick({std::string_view{"ab"}, std::string_view{"a\x80\xff\0\xc3\xa4", 6}, std::string_view{"\xe2\x80\xa6", 3}});
  auto const nl = r.pick({7u, 8u, 15u, 16u, 17u, 31u, 32u, 33u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 255u, 256u, 257u, 600u}) + r.below(3);
  std::string nd;
  switch (r.below(3)) {
    case 0: nd = gen::bytes(r, nl, al, 100); break;
    case 1: { auto const p = gen::bytes(r, 1 + r.below(9), al, 100); while (nd.size() < nl) nd += p; nd.resize(nl); break; }  // periodic
    default: nd = gen::bytes(r, nl, al, 60); break;
  }
  std::string s;  // pieces of the needle, near misses, then perhaps the needle
  for (auto k = r.below(6); k; --k) {
    switch (r.below(4)) {
      case 0: s += gen::bytes(r, r.below(80), al, 90); break;
      case 1: s += nd.substr(0, r.below(nd.size())); break;
      case 2: s += nd.substr(r.below(nd.size())); break;
      default: { auto m = nd; m[r.chance(1, 2) ? r.below(m.size()) : r.chance(1, 2) ? 0 : m.size() - 1] ^= static_cast<char>(1 << r.below(8)); s += m; break; }
    }
  }
  if (r.chance(3, 4)) { s += nd; if (r.chance(1, 2)) s += gen::bytes(r, r.below(80), al, 80); }
  gen::tight t{s}, nt{nd};
  cstr const v{t.p, t.n}, n{nt.p, nt.n};
  vf::note(vf::cat("needle text=", s, " needle=", nd));
  auto const at = s.find(nd);
  CHECK_EQ(at != std::string::npos, v.contains(n), "long/contains", "text=", s, " needle=", nd);
  CHECK_EQ(std::string_view(s).starts_with(nd), v.starts_with(n), "long/starts_with", "text=", s, " needle=", nd);
  cstr w = v;
  CHECK_EQ(at == std::string::npos ? std::numeric_limits<std::size_t>::max() : at, w.substr_offset(n), "long/substr_offset", "text=", s, " needle=", nd);
  c.count(at != std::string::npos ? "long-needle-found" : "long-needle-absent");
  c.distinct(vf::hcomb(vf::hstr(s), vf::hstr(nd)));
}
SCENARIO(exhaustive, 3906, 19531) {  // all texts over 5 characters up to length 5
  one(c, gen::nth_string(c.idx, std::string_view{" \na\0\xe9", 5}));
}
SCENARIO(compare_random, 8000, 500000) {
  auto& r = c.r;
  auto a = text(r, 600), b = a;
  switch (r.below(6)) {
    case 0: b = text(r, 600); break;
    case 1: if (!b.empty()) b[r.below(b.size())] ^= static_cast<char>(1 << r.below(8)); break;
    case 2: b += static_cast<char>(r.below(256)); break;
    case 3: if (!b.empty()) b.pop_back(); break;
    case 4: if (b.size() > 2) { auto i = r.below(b.size() - 1); b[i] = 0; a[i] = 0; b[i + 1] ^= static_cast<char>(1 << r.below(8)); } break;
    default: break;
  }
  compare(c, a, b);
  if (!a.empty()) c.distinct(vf::hcomb(vf::hstr(a), vf::hstr(b)));
}
SCENARIO(compare_exhaustive, 121 * 121, 121 * 121) {
  std::string_view const al{"a\0\xff", 3};
  compare(c, gen::nth_string(c.idx / 121, al), gen::nth_string(c.idx % 121, al));
}
SCENARIO(order_triples, 3000, 60000) {  // transitivity over all byte values
  auto& r = c.r;
  std::vector<std::string> s;
  // short unrelated texts, or longer ones that differ in few places
  auto const base = gen::bytes(r, r.below(40), "ab", 90);
  for (int i = 0; i < 12; ++i) {
    if (c.idx % 2 == 0) { s.push_back(gen::bytes(r, r.below(5), std::string_view{"\x00\x7f\x80\xff" "a", 5}, 80)); continue; }
    auto t = base;
    for (auto k = r.below(3); k && !t.empty(); --k) t[r.below(t.size())] = r.pick({'\0', 'a', 'b', '\x7f', '\x80', '\xff'});
    if (r.chance(1, 3)) t.resize(r.below(t.size() + 1));
    if (r.chance(1, 3)) t += gen::bytes(r, r.below(10), std::string_view{"\x00\x80" "a", 3}, 80);
    s.push_back(t);
  }
  std::deque<gen::tight> t;
  for (auto const& x : s) t.emplace_back(x);
  for (auto const& x : t) for (auto const& y : t) for (auto const& z : t) {
    cstr a{x.p, x.n}, b{y.p, y.n}, d{z.p, z.n};
    if (a < b && b < d) CHECK(a < d, "transitive", vf::cat(a.view(), " ", b.view(), " ", d.view()));
  }
  std::vector<cstr> v;
  for (auto const& x : t) v.push_back(cstr{x.p, x.n});
  std::sort(v.begin(), v.end());
  for (std::size_t i = 0; i + 1 < v.size(); ++i) CHECK(!(v[i + 1] < v[i]), "sorted order");
  c.count("order-triples", 12 * 12 * 12);
}
SCENARIO(null_view, 50, 50) {
  auto& r = c.r;
  std::string s;
  gen::tight t{s};
  cstr const d, n{nullptr}, z{nullptr, 0}, e{t.p, std::size_t{0}}, q{""};
  for (auto const* v : {&d, &n, &z, &e, &q}) {
    CHECK(v->empty() && v->length() == 0 && !v->valid() && !static_cast<bool>(*v), "null empty");
    CHECK(v->begin() == v->end(), "null iteration");
    CHECK_EQ(std::string{}, v->to_str(), "null to_str");
    CHECK(v->view().empty(), "null view");
    CHECK(v->trim().empty() && v->skip_whitespace_front().empty() && v->skip_whitespace_back().empty(), "null trim");
    auto const a = anypos(r, 3), b = anypos(r, 3);
    CHECK(v->substr(a).empty() && v->substr(std::min(a, b), std::max(a, b)).empty() && v->substr(a, utl::size{b}).empty(), "null substr");
    for (auto const* w : {&d, &n, &z, &e, &q}) {
      CHECK(*v == *w && !(*v != *w) && !(*v < *w), "null equality");
      CHECK(v->starts_with(*w) && v->contains(*w), "null prefix");
    }
    cstr x{"x"};
    CHECK(*v < x && !(x < *v) && *v != x && !v->contains(x) && !v->starts_with(x), "null compare");
    cstr w = *v;
    CHECK_EQ(std::numeric_limits<std::size_t>::max(), w.substr_offset(x), "null substr_offset");
  }
  c.distinct(c.idx);
}
SCENARIO(large, 24, 400) {  // longer than narrow counters
  auto& r = c.r;
  auto const n = r.pick({std::size_t{65535}, std::size_t{65536}, std::size_t{65537}, std::size_t{70000}, std::size_t{131073}});
  std::string s = r.chance(1, 2) ? gen::bytes(r, n, "ab") : std::string(n, 'x');
  if (r.chance(1, 2)) {  // blanks on both sides
    auto const k = r.below(n + 1);
    std::fill(s.begin(), s.begin() + static_cast<std::ptrdiff_t>(k), r.chance(1, 2) ? ' ' : '\n');
    if (r.chance(1, 2)) std::fill(s.end() - static_cast<std::ptrdiff_t>(r.below(n - k + 1)), s.end(), ' ');
  }
  one(c, s);
  auto b = s;
  switch (r.below(4)) {
    case 0: b.back() ^= 1; break;
    case 1: b += 'a'; break;
    case 2: b.resize(n - 65535); break;
    default: b[r.below(n)] = '\0'; break;
  }
  compare(c, s, b);
  compare(c, b, s);
}

SCENARIO(beyond_4gib, 2, 4) {  // positions and lengths that 32 bits do not hold
  constexpr std::size_t g4 = std::size_t{1} << 32, m64 = std::size_t{1} << 26;
  gen::giant g{g4 + 70000};
  if (!g.p) { c.count("giant-unavailable"); return; }
  auto const at = c.idx % 2 ? g4 + 100 : g4 / 2 + 7;
  std::memcpy(g.p + at, "needle \n", 8);
  cstr const v{g.p, g.n}, part{g.p, m64};
  CHECK(v.length() == g.n && v.view().size() == g.n && cstr(std::string_view{g.p, g.n}).len == g.n && cstr(g.p, g.p + g.n).len == g.n, "giant/length");
  auto const is = [&](cstr got, std::size_t b, std::size_t n) { return got.len == n && got.str == g.p + b; };
  CHECK(is(v.substr(at, utl::size{6}), at, 6) && is(v.substr(at), at, g.n - at) && is(v.substr(at, at + 6), at, 6) && is(v.substr(1, g4 + 1), 1, g4), "giant/substr");
  CHECK(is(v.substr(utl::field{at, 6}), at, 6) && is(v.substr(utl::field{3, g4 + 5}), 3, g4 + 5), "giant/substr(field)");
  CHECK(v.substr(at, utl::size{6}) == cstr{"needle"}, "giant/equal");
  { cstr w = v; w += at; CHECK(is(w, at, g.n - at) && is(cstr{v} + at, at, g.n - at), "giant/advance"); }
  CHECK(is(v.substr(0, utl::size{at + 8}).trim(), 0, at + 6) && is(v.substr(0, utl::size{at + 8}).skip_whitespace_back(), 0, at + 6), "giant/trim");
  CHECK(is(v.substr(at + 6).skip_whitespace_front(), at + 8, g.n - at - 8), "giant/skip_whitespace_front");
  CHECK(v[at] == 'n' && v[g.n - 1] == 0, "giant/index");
  if (gen::quick([&] { (void)part.contains(cstr{"needle"}); })) { CHECK(v.contains(cstr{"needle"}) && !v.contains(cstr{"needles"}), "giant/contains"); c.count("giant-searches"); }
  if (gen::quick([&] { (void)(part == cstr{g.p, m64}); })) {
    auto const low = cstr{g.p, g4 / 2};  // equal low halves of the length
    CHECK(!(v == cstr{g.p, g.n - g4}) && !(cstr{g.p, 0UL} == cstr{g.p, g4}) && v != low, "giant/length differs");
    CHECK((cstr{g.p, g4 + 50}.starts_with(cstr{g.p, g4 + 20})), "giant/starts_with");
    CHECK(!(cstr{g.p, 16UL}.starts_with(cstr{g.p, g4 + 8})), "giant/starts_with longer");
  }
  c.count("giant-views");
  c.distinct(vf::hcomb(4096, c.idx));
}
