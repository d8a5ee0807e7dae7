// C12: byte buffer histories vs. a byte-string model; allocator balance.
#include "vf.h"
#include "gen.h"
#include "heap_watch.h"

#include "utl/parser/buffer.h"

namespace {
struct model { bool made = false; std::string s; std::vector<bool> known; };  // bytes known only where defined

bool same(utl::buffer& b, model const& m) {
  if (b.size() != m.s.size()) return false;
  auto const& cb = b;
  if (b.size() && (b.data() == nullptr || cb.data() != b.data())) return false;
  if (b.begin() != b.data() || b.end() != b.data() + b.size()) return false;
  for (std::size_t i = 0; i < m.s.size(); ++i) if (m.known[i] && b.data()[i] != static_cast<unsigned char>(m.s[i])) return false;
  return true;
}
std::size_t pick_size(vf::rng& r) {
  switch (r.below(6)) { case 0: return 0; case 1: return r.below(4); case 2: return r.below(40); case 3: return r.below(300); case 4: return (std::size_t{1} << r.below(15)) - 1 + r.below(3); default: return r.below(20000); }
}
void fill(utl::buffer& b, model& m, vf::rng& r) {  // write every byte: all of it must be writable
  for (std::size_t i = 0; i < b.size(); ++i) { auto const x = static_cast<unsigned char>(r.next()); b.data()[i] = x; m.s[i] = static_cast<char>(x); m.known[i] = true; }
}
constexpr std::size_t huge[] = {SIZE_MAX, SIZE_MAX / 2, SIZE_MAX - 4096, std::size_t{1} << 46, std::size_t{1} << 40};
}  // namespace

namespace {
void warm_up() {  // first throws allocate lazily initialised library state
  static bool const once = [] {
    for (int i = 0; i < 2; ++i) {
      try { utl::buffer b{SIZE_MAX}; } catch (std::exception const&) {}
      try { utl::buffer b{1}; b.resize(SIZE_MAX); } catch (std::exception const&) {}
    }
    heap::install();
    return true;
  }();
  (void)once;
}
}  // namespace
SCENARIO(history, 5000, 150000) {
  warm_up();
  c.count("operations", 0); c.count("failed-allocations", 0);
  std::string trace; trace.reserve(4096);
  auto const before = heap::blocks.load();
  auto const ev = heap::events.load();
  {
    std::array<std::optional<utl::buffer>, 4> b;
    std::array<model, 4> m;
    auto const n = 1 + c.r.below(30);
    std::uint64_t fails = 0;
    for (std::size_t q = 0; q < n; ++q) {
      auto const i = c.r.below(4), j = c.r.below(4);
      auto op = [&](char o) { if (trace.size() < 400) { trace += o; trace += static_cast<char>('0' + i); trace += static_cast<char>('0' + j); trace += ' '; } };
      switch (c.r.below(9)) {
        case 0:
          op('n');
          if (!b[i]) switch (c.r.below(4)) {
            case 0: b[i].emplace(); m[i] = {true, {}, {}}; break;
            case 1: { auto const z = pick_size(c.r); b[i].emplace(z); m[i] = {true, std::string(z, 0), std::vector<bool>(z, false)}; break; }
            case 2: { auto s = gen::bytes(c.r, pick_size(c.r), "\0\n\xff", 20); gen::tight t{s}; b[i].emplace(s.empty() ? "" : t.p, t.n); m[i] = {true, s, std::vector<bool>(s.size(), true)}; break; }
            default: { auto s = gen::word(c.r, 60); b[i].emplace(s.c_str()); m[i] = {true, s, std::vector<bool>(s.size(), true)}; }
          }
          break;
        case 1: op('d'); b[i].reset(); m[i] = {}; break;
        case 2: case 3: case 4:
          op('r');
          if (b[i]) { auto const z = pick_size(c.r); b[i]->resize(z); m[i].s.resize(z); m[i].known.resize(z, false); }
          break;
        case 5:
          op('x');  // failing resize
          if (b[i]) {
            bool threw = false;
            auto const z = huge[c.r.below(5)];
            try { b[i]->resize(z); } catch (std::bad_alloc const&) { threw = true; }
            CHECK(threw, "resize/huge-did-not-throw", z, b[i]->size()); ++fails;
          }
          break;
        case 6:
          op('m');
          if (b[i] && !b[j]) { b[j].emplace(std::move(*b[i])); m[j] = std::move(m[i]); m[i] = {true, {}, {}}; }
          break;
        case 7:
          op('a');
          if (b[i] && b[j]) { *b[j] = std::move(*b[i]); if (i != j) { m[j] = std::move(m[i]); m[i] = {true, {}, {}}; } }
          break;
        default: op('w'); if (b[i]) fill(*b[i], m[i], c.r);
      }
      for (std::size_t k = 0; k < 4; ++k) if (b[k]) CHECK(same(*b[k], m[k]), "contents", "slot ", k, " size ", b[k]->size(), " want ", m[k].s.size(), " ", trace);
    }
    c.count("operations", n); c.count("failed-allocations", fails);
    for (auto& x : b) if (x) CHECK(!x->size() || x->data(), "data-null");
  }
  auto const left = heap::blocks.load() - before;
  auto const h = vf::hstr(trace);
  CHECK(left == 0, "leak", "blocks left ", left, " hash ", h);
  c.distinct(h);
  c.count("heap-events", heap::events.load() - ev);
}

// leak/double free accounting of single operations with nothing else around
SCENARIO(balance, 2000, 20000) {
  warm_up();
  auto const a = pick_size(c.r), z = pick_size(c.r);
  auto const what = c.r.below(9);
  bool ok = true;
  auto const before = heap::blocks.load();
  {
    utl::buffer x{a};
    switch (what) {
      case 0: { utl::buffer y{z}; y = std::move(x); ok = y.size() == a && x.size() == 0; break; }
      case 1: { auto& r = x; x = std::move(r); ok = x.size() == a; break; }
      case 2: { utl::buffer y{std::move(x)}; x = utl::buffer{z}; ok = y.size() == a && x.size() == z; break; }
      case 3: { x.resize(0); ok = x.size() == 0; x.resize(z); ok = ok && x.size() == z; break; }
      case 4: { x.resize(0); break; }
      case 5: { utl::buffer y{std::move(x)}; x.resize(z); ok = x.size() == z && y.size() == a; if (z) x.data()[z - 1] = 1; break; }
      case 6: { utl::buffer y; y.resize(z); ok = y.size() == z; x = std::move(y); ok = ok && x.size() == z; break; }
      case 7: { x.resize(z); x.resize(0); x.resize(0); x = utl::buffer{}; ok = x.size() == 0; break; }
      default: {
        try { utl::buffer y{huge[c.r.below(5)]}; ok = false; } catch (std::exception const&) {}
        try { x.resize(huge[c.r.below(5)]); ok = false; } catch (std::bad_alloc const&) {}
        ok = ok && x.size() == a;
        if (a) { x.data()[0] = 1; x.data()[a - 1] = 2; }
      }
    }
  }
  auto const left = heap::blocks.load() - before;
  CHECK(ok, "balance/size", what, a, z);
  CHECK_EQ(std::int64_t{0}, left, "balance/leak", what, " ", a, " ", z);
  c.count("operations"); c.distinct(vf::hcomb(what, vf::hcomb(a, z)));
  if (c.want_sample()) c.sample(vf::cat(what, " ", a, " ", z));
}

// every small step between two sizes
SCENARIO(steps, 400, 400) {
  warm_up();
  auto const a = c.idx;
  auto const before = heap::blocks.load();
  std::size_t bad = SIZE_MAX;
  {
    for (std::size_t z = a > 90 ? a - 90 : 0; z <= a + 90; ++z) {
      utl::buffer x{a};
      for (std::size_t i = 0; i < a; ++i) x.data()[i] = static_cast<unsigned char>(i * 7 + 1);
      x.resize(z);
      if (x.size() != z) bad = z;
      for (std::size_t i = 0; i < std::min(a, z); ++i) if (x.data()[i] != static_cast<unsigned char>(i * 7 + 1)) bad = z;
      for (std::size_t i = 0; i < z; ++i) x.data()[i] = static_cast<unsigned char>(i * 3 + 5);
      x.resize(a);
      if (x.size() != a) bad = z;
      for (std::size_t i = 0; i < std::min(a, z); ++i) if (x.data()[i] != static_cast<unsigned char>(i * 3 + 5)) bad = z;
      for (std::size_t i = 0; i < a; ++i) x.data()[i] = 1;
    }
  }
  CHECK_EQ(SIZE_MAX, bad, "steps/contents", "from size ", a);
  auto const left = heap::blocks.load() - before;
  CHECK_EQ(std::int64_t{0}, left, "steps/leak", "from size ", a);
  c.count("steps", 181); c.distinct(vf::hcomb(991, a));
}

// sizes beyond what 16 and 32 bit sizes hold
SCENARIO(large, 120, 1500) {
  warm_up();
  auto size = [&]() -> std::size_t {
    return c.r.pick({32767UL, 32768UL, 65534UL, 65535UL, 65536UL, 65537UL, 131071UL, 131072UL, 131073UL, 1UL << 18, (1UL << 20) + 1}) + c.r.below(3);
  };
  auto byte = [](std::size_t i) { return static_cast<unsigned char>(i * 31 + (i >> 8) * 7 + 1); };
  auto ok = [&](utl::buffer& x, std::size_t n, std::size_t known) {
    if (x.size() != n || x.end() - x.begin() != static_cast<std::ptrdiff_t>(n)) return false;
    for (std::size_t i = 0; i < known; ++i) if (x.data()[i] != byte(i)) return false;
    return true;
  };
  auto const before = heap::blocks.load();
  char const* bad = nullptr;
  auto const a = size(), z = size();
  {
    std::vector<char> src(a + 1);
    for (std::size_t i = 0; i < a; ++i) src[i] = static_cast<char>(byte(i));
    utl::buffer x;
    if (c.idx % 3 == 0) { x = utl::buffer{a}; for (std::size_t i = 0; i < a; ++i) x.data()[i] = byte(i); }
    else if (c.idx % 3 == 1) x = utl::buffer{src.data(), a};
    else { for (auto& ch : src) if (ch == 0) ch = 1; src[a] = 0; x = utl::buffer{src.data()}; for (std::size_t i = 0; i < a && x.size() == a; ++i) { if (x.data()[i] != static_cast<unsigned char>(src[i])) bad = "from c string"; x.data()[i] = byte(i); } }
    if (!bad && !ok(x, a, a)) bad = "construction";
    if (!bad) { x.resize(z); if (!ok(x, z, std::min(a, z))) bad = "resize"; }
    if (!bad) { for (std::size_t i = 0; i < z; ++i) x.data()[i] = byte(i); utl::buffer y{std::move(x)}; if (!ok(y, z, z) || x.size() != 0) bad = "move"; x = std::move(y); if (!ok(x, z, z) || y.size() != 0) bad = "move assignment"; }
    if (!bad) { x.resize(7); x.resize(a); if (!ok(x, a, 7)) bad = "shrink and grow"; x.data()[a - 1] = 3; }
  }
  CHECK(bad == nullptr, "large/contents", bad, " sizes ", a, " ", z);
  CHECK_EQ(std::int64_t{0}, heap::blocks.load() - before, "large/leak", a, " ", z);
  c.count("large-buffers");
  c.distinct(vf::hcomb(997, vf::hcomb(a, z)));
}
SCENARIO(beyond_4gib, 4, 8) {  // untouched pages cost nothing
  warm_up();
  auto const n = (std::size_t{1} << 32) + 5 + c.idx;
  char const* bad = nullptr;
  auto const before = heap::blocks.load();
  {
    utl::buffer x{std::size_t{c.idx % 2 ? 9UL : n}};
    x.data()[0] = 7;
    if (c.idx % 2) x.resize(n);
    if (x.size() != n || x.data()[0] != 7) bad = "size";
    else { x.data()[n - 1] = 9; utl::buffer y{std::move(x)}; if (y.size() != n || y.data()[n - 1] != 9 || x.size() != 0) bad = "move"; }
  }
  CHECK(bad == nullptr, "beyond 4 GiB", bad, " size ", n);
  CHECK_EQ(std::int64_t{0}, heap::blocks.load() - before, "beyond 4 GiB/leak", n);
  c.count("huge-buffers");
}
