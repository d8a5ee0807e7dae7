// C14: memory mapped reader vs. the file's bytes; descriptor/mapping balance.
#include "vf.h"
#include "gen.h"
#include "fdwatch.h"

#include <algorithm>

#include "utl/parser/mmap_reader.h"

namespace {
std::string contents(vf::rng& r) {
  auto const n = fdw::file_size(r);
  switch (r.below(5)) {
    case 4: {  // lines that end exactly with a page
      std::string s;
      for (auto k = 1 + r.below(3); k; --k) { s += std::string(4096 * (1 + r.below(6)) - 1, static_cast<char>('a' + r.below(3))); s += '\n'; }
      if (r.chance(1, 4)) s.back() = 'x';
      return s;
    }
    case 0: return std::string(n, '\n');
    case 1: return gen::bytes(r, n, "\n\r", 30);
    case 2: return gen::bytes(r, n, "", 0);
    default: { std::string s; while (s.size() < n) { s += gen::bytes(r, r.below(200), "ab"); if (r.chance(9, 10)) s += '\n'; } s.resize(n); return s; }
  }
}
struct mr {
  std::unique_ptr<utl::mmap_reader> r;
  std::string s;
  std::size_t pos = 0;
  bool gone = false;  // moved from: owns nothing, can be assigned to, moved again, dropped
};
void progress(vf::ctx& c, mr& m) {
  auto const p = m.r->progress();
  CHECK(p >= 0.0F && p <= 1.0F, "progress/range", p, " at ", m.pos, " of ", m.s.size());
  auto const want = m.s.empty() ? 1.0 : static_cast<double>(m.pos) / static_cast<double>(m.s.size());
  CHECK(std::abs(want - static_cast<double>(p)) <= 1e-5, "progress/value", "want ", want, " got ", p);
}
void step(vf::ctx& c, mr& m) {
  progress(c, m);
  auto const rest = m.s.size() - m.pos;
  if (c.r.chance(1, 2)) {
    std::size_t const ask = c.r.pick({std::size_t{0}, std::size_t{1}, rest, rest + 1, SIZE_MAX, std::size_t{c.r.below(5000)}, std::size_t{c.r.below(rest + 1)}, std::size_t{4096}});
    auto const g = m.r->read(ask);
    auto const want = std::min(ask, rest);
    CHECK_EQ(want, g.len, "read/length", "asked ", ask, " rest ", rest);
    CHECK(want == 0 || std::string_view(g.str, g.len) == std::string_view(m.s).substr(m.pos, want), "read/bytes", m.pos, want);
    m.pos += want;
    c.count("reads");
  } else {
    auto const g = m.r->read_line();
    auto const nl = m.s.find('\n', m.pos);
    auto const end = nl == std::string::npos ? m.s.size() : nl;
    CHECK_EQ(end - m.pos, g.len, "read_line/length", "pos ", m.pos, " of ", m.s.size());
    CHECK(g.len == 0 || std::string_view(g.str, g.len) == std::string_view(m.s).substr(m.pos, g.len), "read_line/bytes", m.pos);
    CHECK((rest == 0) == (g.str == nullptr), "read_line/end-marker", "rest ", rest);
    m.pos = nl == std::string::npos ? m.s.size() : nl + 1;
    c.count("lines");
  }
  progress(c, m);
}
}  // namespace

SCENARIO(histories, 1500, 30000) {
  auto const before = fdw::open_fds();
  auto const bad = fdw::bad_closes;
  std::vector<std::pair<std::string, std::string>> files;
  for (int i = 0; i < 2; ++i) { auto s = contents(c.r); auto p = fdw::put("m" + std::to_string(i) + ".bin", s); files.emplace_back(p, s); }
  {
    std::array<mr, 3> m;
    auto live = [&] {  // every live reader of a non-empty file holds a mapping
      int n = 0, fds = 0;
      for (auto const& x : m) { if (x.r && !x.gone) { ++fds; if (!x.s.empty()) ++n; } }
      return std::pair{n, fds};
    };
    auto balance = [&](char const* what) {
      auto const [maps, fds] = live();
      CHECK_EQ(maps, fdw::mappings_of(fdw::workdir() + "/m"), "mappings", what);
      auto const now = fdw::open_fds().size();
      // a reader may or may not keep its descriptor while mapped
      CHECK(now >= before.size() && now <= before.size() + static_cast<std::size_t>(fds), "descriptors", what, " ", now, " vs ", before.size(), "+", fds);
      CHECK_EQ(bad, fdw::bad_closes, "double-close", what);
    };
    auto const n = 3 + c.r.below(14);
    for (std::size_t q = 0; q < n; ++q) {
      auto const i = c.r.below(3), j = c.r.below(3);
      switch (c.r.below(8)) {
        case 0: case 1:
          if (!m[i].r) { auto const& [p, s] = files[c.r.below(2)]; m[i] = {std::make_unique<utl::mmap_reader>(p.c_str()), s, 0}; c.count("opens"); balance("open"); }
          break;
        case 2: if (m[i].r && !m[j].r) {
            m[j] = {std::make_unique<utl::mmap_reader>(std::move(*m[i].r)), m[i].s, m[i].pos, m[i].gone};
            if (c.r.chance(1, 2)) m[i] = {}; else m[i].gone = true;
            c.count("moves"); balance("move-construct");
          }
          break;
        case 3:
          if (m[i].r && m[j].r && i != j) {
            if (m[i].gone || m[j].gone) c.count("moves-of-empty-readers");
            *m[j].r = std::move(*m[i].r); m[j].s = m[i].s; m[j].pos = m[i].pos; m[j].gone = m[i].gone;
            if (c.r.chance(1, 2)) m[i] = {}; else m[i].gone = true;
            c.count("moves"); balance("move-assign");
          }
          else if (m[i].r && c.r.chance(1, 2)) { auto& x = *m[i].r; x = std::move(x); c.count("moves"); balance("self-move"); }
          break;
        case 4: if (c.r.chance(1, 2)) { m[i] = {}; balance("destroy"); } break;
        default: if (m[i].r && !m[i].gone) for (auto k = c.r.below(20); k > 0; --k) step(c, m[i]);
      }
    }
    for (auto& x : m) if (x.r && !x.gone) { for (int k = 0; k < 400 && x.pos < x.s.size(); ++k) step(c, x); }
  }
  CHECK_EQ(before, fdw::open_fds(), "descriptor-leak"); CHECK_EQ(0, fdw::mappings_of(fdw::workdir() + "/m"), "mapping-leak"); CHECK_EQ(bad, fdw::bad_closes, "double-close-end");
  if (files[0].second.size() > 1) c.distinct(vf::hcomb(vf::hstr(files[0].second), vf::hstr(files[1].second)));
  if (c.want_sample()) c.sample(vf::cat(files[0].second.size(), " and ", files[1].second.size(), " bytes"));
}

// whole files by lines: concatenation restores the file
SCENARIO(lines, 1200, 30000) {
  auto const s = contents(c.r);
  auto const p = fdw::put("l.bin", s);
  utl::mmap_reader r{p.c_str()};
  std::string all; std::size_t n = 0; auto const total = static_cast<std::size_t>(std::count(s.begin(), s.end(), '\n')) + (s.empty() || s.back() == '\n' ? 0 : 1);
  float last = -1;
  for (;;) {
    auto const l = r.read_line();
    if (!l.str) break;
    CHECK(n < total, "lines/too-many", n);
    all.append(l.str, l.len); ++n;
    if (all.size() < s.size()) { CHECK_EQ('\n', s[all.size()], "lines/terminator"); all += '\n'; }
    auto const pr = r.progress(); CHECK(pr >= last && pr <= 1.0F, "lines/progress", last, pr); last = pr;
  }
  CHECK_EQ(total, n, "lines/count"); CHECK(all == s, "lines/bytes"); CHECK_EQ(1.0F, r.progress(), "lines/progress-end");
  c.count("lines", n); if (s.size() > 1) c.distinct(vf::hstr(s));
}

SCENARIO(errors, 400, 3000) {
  auto const w = fdw::workdir();
  auto const before = fdw::open_fds(); auto const bad = fdw::bad_closes;
  ::mkdir((w + "/dir").c_str(), 0755); auto const plain = fdw::put("plain", "x\ny"); ::symlink("loop", (w + "/loop").c_str());
  std::string const missing[] = {w + "/nothere", w + "/no/such/dir", plain + "/below-a-file", w + "/loop", w + "/" + std::string(300, 'n'), "", w + "/dir"};
  auto const& p = missing[c.idx % 7];
  bool threw = false;
  try { utl::mmap_reader r{p.c_str()}; } catch (std::exception const&) { threw = true; }
  CHECK(threw, "missing", p); c.count("open-errors");
  CHECK_EQ(before, fdw::open_fds(), "errors/descriptor-leak", p); CHECK_EQ(bad, fdw::bad_closes, "errors/double-close");
  if (c.idx % 5 == 0) {  // out of descriptors; failing construction while another reader lives
    utl::mmap_reader ok{plain.c_str()};
    auto const held = fdw::open_fds();
    rlimit old{}; getrlimit(RLIMIT_NOFILE, &old); rlimit lim = old; lim.rlim_cur = static_cast<rlim_t>(*held.rbegin() + 1);
    std::vector<int> gaps; for (int i = 0; i <= *held.rbegin(); ++i) if (!held.count(i)) gaps.push_back(::dup2(*held.begin(), i));
    setrlimit(RLIMIT_NOFILE, &lim);
    bool t2 = false;
    try { utl::mmap_reader r{plain.c_str()}; } catch (std::exception const&) { t2 = true; }
    setrlimit(RLIMIT_NOFILE, &old);
    for (auto d : gaps) ::close(d);
    CHECK(t2, "errors/no-descriptors"); CHECK_EQ(held, fdw::open_fds(), "errors/descriptor-leak-2");
    auto const l = ok.read_line(); CHECK(std::string_view(l.str, l.len) == "x", "errors/other-reader-damaged"); c.count("open-errors");
  }
  CHECK_EQ(before, fdw::open_fds(), "errors/descriptor-leak-3");
  c.distinct(c.idx);
}

// a file larger than 32 bit sizes (sparse: only its ends hold data)
SCENARIO(huge, 8, 32) {
  auto const path = fdw::put("huge.bin", "first\nsecond");
  auto const gap = (std::uint64_t{1} << 32) - 4096 + c.r.below(8192);  // the tail starts around 4 GiB
  std::string tail;
  for (auto n = 1 + c.r.below(40); n; --n) { tail += gen::bytes(c.r, c.r.below(60), "ab\r"); if (c.r.chance(9, 10)) tail += '\n'; }
  {
    int const fd = ::open(path.c_str(), O_WRONLY | O_CLOEXEC);
    auto const ok = fd >= 0 && ::pwrite(fd, tail.data(), tail.size(), static_cast<off_t>(gap)) == static_cast<ssize_t>(tail.size());
    if (fd >= 0) ::close(fd);
    if (!ok) { ::unlink(path.c_str()); c.count("huge-unavailable"); return; }
  }
  auto const before = fdw::open_fds();
  auto const size = gap + tail.size();
  {
    utl::mmap_reader r{path.c_str()};
    auto l = r.read_line();
    CHECK(std::string_view(l.str, l.len) == "first", "huge/first-line");
    auto g = r.read(gap - 6);
    CHECK_EQ(gap - 6, g.len, "huge/read-length", "asked ", gap - 6);
    CHECK(std::string_view(g.str, 6) == "second" && g.str[g.len - 1] == 0, "huge/read-bytes");
    std::size_t pos = 0;
    while (pos < tail.size()) {
      auto const want_p = static_cast<double>(gap + pos) / static_cast<double>(size);
      CHECK(std::abs(static_cast<double>(r.progress()) - want_p) <= 1e-5, "huge/progress", r.progress(), " want ", want_p);
      auto const rest = tail.size() - pos;
      if (c.r.chance(1, 3)) {
        std::size_t const ask = c.r.pick({std::size_t{c.r.below(50)}, rest, rest + 1, std::size_t{1} << 32, std::size_t{1} << 33, SIZE_MAX});
        auto const x = r.read(ask);
        CHECK(std::string_view(x.str, x.len) == std::string_view(tail).substr(pos, ask), "huge/tail-bytes", "at ", pos, " asked ", ask, " got ", x.len);
        pos += x.len;
      } else {
        auto const x = r.read_line();
        auto const nl = tail.find('\n', pos);
        auto const end = nl == std::string::npos ? tail.size() : nl;
        CHECK(x.str && std::string_view(x.str, x.len) == std::string_view(tail).substr(pos, end - pos), "huge/tail-line", "at ", pos);
        pos = nl == std::string::npos ? tail.size() : nl + 1;
      }
    }
    CHECK(r.read_line().str == nullptr && r.read(5).len == 0, "huge/after-end");
    CHECK_EQ(1.0F, r.progress(), "huge/progress-end");
    utl::mmap_reader s{std::move(r)};
  }
  CHECK_EQ(0, fdw::mappings_of(path), "huge/mapping-leak");
  CHECK_EQ(before, fdw::open_fds(), "huge/descriptor-leak");
  ::unlink(path.c_str());
  c.count("huge-files");
}
