// C13: whole-file reading/writing vs. the bytes on disk.
#include "vf.h"
#include "gen.h"
#include "fdwatch.h"
#include "heap_watch.h"

#include "utl/parser/file.h"
#include "utl/read_file.h"

namespace {
std::string str(utl::buffer& b) { return b.size() ? std::string(reinterpret_cast<char*>(b.data()), b.size()) : std::string{}; }
std::string contents(vf::rng& r) { return gen::bytes(r, fdw::file_size(r), std::string_view("\0\n\r\x1a\xff", 5), 50); }
}  // namespace

SCENARIO(read, 2500, 60000) {
  auto const s = contents(c.r);
  auto const p = fdw::put("in.bin", s);
  auto const before = fdw::open_fds();
  auto const bad = fdw::bad_closes;
  {
    utl::file f{p.c_str(), c.r.chance(1, 2) ? "r" : "rb"};
    auto const n = 1 + c.r.below(5);
    for (std::size_t i = 0; i < n; ++i) {
      switch (c.r.below(4)) {
        case 0: { auto b = f.content(); CHECK(str(b) == s, "content", "size ", s.size(), " got ", b.size(), " ask ", i); break; }
        case 1: { auto t = f.content_str(); CHECK(t == s, "content_str", "size ", s.size(), " got ", t.size(), " ask ", i); break; }
        case 2: CHECK_EQ(s.size(), f.size(), "size"); break;
        default: {  // the caller reads through the handle in between
          char b[100]; auto const k = std::fread(b, 1, c.r.below(100), f); (void)k;
          if (c.r.chance(1, 2)) std::fseek(f, static_cast<long>(c.r.below(s.size() + 10)), SEEK_SET);
          auto t = f.content_str(); CHECK(t == s, "content_str-after-read", s.size());
        }
      }
      c.count("reads");
    }
    CHECK(static_cast<FILE*>(f) != nullptr, "handle");
    if (c.r.chance(1, 3)) {  // ownership moves
      auto g = std::move(f);
      auto b = g.content(); CHECK(str(b) == s, "content-moved"); c.count("moves");
      if (c.r.chance(1, 2)) {
        utl::file h{p.c_str(), "r"}; h = std::move(g);
        CHECK(h.content_str() == s, "content-move-assigned");
        CHECK_EQ(before.size() + 1, fdw::open_fds().size(), "fd-after-move-assign");
        auto& hh = h; h = std::move(hh); CHECK(h.content_str() == s, "content-self-moved");
      }
    }
  }
  CHECK_EQ(before, fdw::open_fds(), "fd-leak-file");
  for (int i = 0; i < 2; ++i) {
    auto const r = utl::read_file(p.c_str());
    CHECK(r.has_value(), "read_file/empty-optional", s.size()); CHECK(*r == s, "read_file/bytes", s.size(), " got ", r->size());
    c.count("reads");
  }
  CHECK_EQ(before, fdw::open_fds(), "fd-leak-read_file");
  CHECK_EQ(bad, fdw::bad_closes, "double-close");
  if (s.size() > 1) c.distinct(vf::hstr(s));
  if (c.want_sample()) c.sample(vf::cat(s.size(), " bytes: ", s.substr(0, 40)));
}

SCENARIO(write, 2000, 40000) {
  auto const p = fdw::workdir() + "/out.bin";
  auto const before = fdw::open_fds();
  std::string want;
  if (c.r.chance(1, 2)) fdw::put("out.bin", gen::bytes(c.r, c.r.below(5000), "x"));  // overwritten
  char const* const mode = c.r.pick({"w", "wb", "w+", "wb+"});
  bool const readable = std::strchr(mode, '+');
  {
    utl::file f{p.c_str(), mode};
    auto const n = c.r.below(8);
    for (std::size_t i = 0; i < n; ++i) {
      auto const s = contents(c.r);
      gen::tight t{s};
      f.write(s.empty() ? "" : t.p, t.n); want += s; c.count("writes");
      if (c.r.chance(1, 3)) { auto g = std::move(f); CHECK_EQ(want.size(), g.size(), "size-of-written"); std::fseek(g, 0, SEEK_END); f = std::move(g); c.count("moves"); }
      if (readable && c.r.chance(1, 2)) { CHECK(f.content_str() == want, "readback-same-handle", want.size()); std::fseek(f, 0, SEEK_END); c.count("reads"); }
    }
    if (readable) { auto b = f.content(); CHECK(str(b) == want, "readback-content", want.size()); }
  }
  CHECK_EQ(before, fdw::open_fds(), "fd-leak");
  CHECK(fdw::get(p) == want, "bytes-on-disk", want.size());
  { utl::file f{p.c_str(), "rb"}; CHECK(f.content_str() == want, "readback", want.size()); }
  CHECK(utl::read_file(p.c_str()) == want, "readback-read_file");
  if (c.r.chance(1, 3)) {  // append keeps what is there
    auto const extra = gen::bytes(c.r, c.r.below(3000), "\n");
    { utl::file f{p.c_str(), "ab"}; f.write(extra.empty() ? "" : extra.data(), extra.size()); }
    CHECK(utl::read_file(p.c_str()) == want + extra, "append");
  }
  if (!want.empty()) c.distinct(vf::hstr(want));
}

// Several handles, opened, moved (also from and to handles that own nothing),
// written, read and dropped in any order: a handle that is no longer owned is
// flushed and closed at that moment, every other one stays open.
SCENARIO(handles, 1500, 40000) {
  auto const before = fdw::open_fds();
  auto const bad = fdw::bad_closes;
  auto const k = 2 + c.r.below(3);
  std::vector<std::optional<utl::file>> h(k);
  struct owned { int file = -1; bool write = false; };  // -1: owns nothing
  std::vector<owned> own(k);
  std::vector<std::string> disk;  // bytes each file must have once closed
  std::vector<std::string> path;
  std::string script;
  auto const where = [&] { return script; };
  auto const drop = [&](owned& o) {
    if (o.file != -1) CHECK(fdw::get(path[static_cast<std::size_t>(o.file)]) == disk[static_cast<std::size_t>(o.file)], "handle given up: bytes not on disk", where());
    o = owned{};
  };
  for (auto steps = 4 + c.r.below(20); steps; --steps) {
    auto const a = c.r.below(k), b = c.r.below(k);
    auto const op = c.r.below(9);
    script += vf::cat(" ", static_cast<int>(op), ":", static_cast<int>(a), ",", static_cast<int>(b));
    switch (op) {
      case 0: case 1: {  // open over whatever is there
        auto const w = c.r.chance(1, 2);
        auto const n = w || disk.empty() || c.r.chance(1, 2) ? disk.size() : c.r.below(disk.size());
        bool in_use = false;
        for (auto const& o : own) in_use |= o.file == static_cast<int>(n) && o.write;
        if (in_use) break;
        if (n == disk.size()) {
          disk.push_back(w ? std::string{} : contents(c.r));
          path.push_back(fdw::put("h" + std::to_string(n), disk.back()));
        }
        utl::file f{path[n].c_str(), w ? "w" : "r"};
        auto old = own[a];
        if (h[a].has_value() && c.r.chance(1, 2)) *h[a] = std::move(f); else { h[a].reset(); h[a].emplace(std::move(f)); }
        drop(old);
        own[a] = {static_cast<int>(n), w};
        break;
      }
      case 2: case 3: {  // move assignment
        if (!h[a].has_value() || !h[b].has_value()) break;
        auto old = own[a];
        *h[a] = std::move(*h[b]);
        if (a != b) { own[a] = own[b]; own[b] = owned{}; drop(old); if (own[a].file == -1) c.count("assigned-from-empty"); }
        c.count("moves");
        break;
      }
      case 4: {  // move construction
        if (!h[b].has_value() || a == b) break;
        auto old = own[a];
        h[a].reset();
        drop(old);
        h[a].emplace(std::move(*h[b]));
        own[a] = own[b];
        own[b] = owned{};
        c.count("moves");
        break;
      }
      case 5: { auto old = own[a]; h[a].reset(); own[a] = owned{}; drop(old); break; }
      default: {
        if (!h[a].has_value() || own[a].file == -1) break;
        auto const n = static_cast<std::size_t>(own[a].file);
        if (own[a].write) {
          auto const t = c.r.chance(3, 4) ? gen::bytes(c.r, c.r.below(40), "\n") : contents(c.r);
          h[a]->write(t.data(), t.size());
          disk[n] += t;
          c.count("writes");
        } else {
          CHECK(h[a]->content_str() == disk[n], "content", where());
          c.count("reads");
        }
      }
    }
    std::size_t open = 0;
    for (auto const& o : own) open += o.file != -1;
    CHECK_EQ(before.size() + open, fdw::open_fds().size(), "open descriptors", where());
    for (std::size_t i = 0; i < k; ++i) if (h[i].has_value()) CHECK((static_cast<FILE*>(*h[i]) != nullptr) == (own[i].file != -1), "handle of a file", "slot ", i, where());
  }
  for (std::size_t i = 0; i < k; ++i) { auto old = own[i]; h[i].reset(); own[i] = owned{}; drop(old); }
  CHECK_EQ(before, fdw::open_fds(), "fd-leak", where());
  CHECK_EQ(bad, fdw::bad_closes, "double-close", where());
  for (auto const& p : path) ::unlink(p.c_str());
  c.distinct(vf::hstr(script));
  c.count("handle-histories");
}

SCENARIO(errors, 900, 6000) {
  auto const w = fdw::workdir();
  auto const before = fdw::open_fds();
  auto const bad = fdw::bad_closes;
  ::mkdir((w + "/dir").c_str(), 0755); auto const plain = fdw::put("plain", "x"); ::symlink("loop", (w + "/loop").c_str());
  std::string const missing[] = {w + "/nothere", w + "/no/such/dir", plain + "/below-a-file", w + "/loop", w + "/" + std::string(300, 'n'), "", w + "/" + std::string(5000, 'n')};
  auto const& p = missing[c.idx % 7];
  CHECK(!utl::read_file(p.c_str()).has_value(), "read_file/missing", p);
  bool threw = false;
  try { utl::file f{p.c_str(), "r"}; } catch (std::exception const&) { threw = true; }
  CHECK(threw, "file/missing", p); c.count("open-errors");
  CHECK(!utl::read_file((w + "/dir").c_str()).has_value(), "read_file/directory");
  threw = false;
  try { utl::file f{(w + "/dir").c_str(), "r"}; f.content_str(); } catch (std::exception const&) { threw = true; }
  CHECK(threw, "file/directory"); c.count("open-errors");
  // reading through a write-only handle fails, it does not invent bytes
  threw = false;
  try { utl::file f{(w + "/wo").c_str(), "w"}; f.write("abcdefgh", 1 + c.r.below(8)); if (c.r.chance(1, 2)) f.content(); else f.content_str(); } catch (std::exception const&) { threw = true; }
  CHECK(threw, "file/read-error-unreported"); c.count("io-errors");
  // a full device: writes beyond the stdio buffer are reported
  threw = false;
  try { utl::file f{"/dev/full", "w"}; std::string const big(100000 + c.r.below(300000), 'x'); f.write(big.data(), big.size()); } catch (std::exception const&) { threw = true; }
  CHECK(threw, "file/write-error-unreported"); c.count("io-errors");
  threw = false;
  try { utl::file f{plain.c_str(), "r"}; std::string const big(100000, 'x'); f.write(big.data(), big.size()); } catch (std::exception const&) { threw = true; }
  CHECK(threw, "file/write-to-read-only-unreported");
  CHECK_EQ(before, fdw::open_fds(), "errors/fd-leak"); CHECK_EQ(bad, fdw::bad_closes, "errors/double-close");
  if (c.idx % 10 == 0) {  // out of descriptors
    rlimit old{}; getrlimit(RLIMIT_NOFILE, &old);
    rlimit lim = old; lim.rlim_cur = static_cast<rlim_t>(*before.rbegin() + 1);
    std::vector<int> gaps; for (int i = 0; i <= *before.rbegin(); ++i) if (!before.count(i)) { int const d = ::dup2(*before.begin(), i); gaps.push_back(d); }
    setrlimit(RLIMIT_NOFILE, &lim);
    bool t2 = false, none = false;
    try { utl::file f{plain.c_str(), "r"}; } catch (std::exception const&) { t2 = true; }
    none = !utl::read_file(plain.c_str()).has_value();
    setrlimit(RLIMIT_NOFILE, &old);
    for (auto d : gaps) ::close(d);
    CHECK(t2, "errors/no-descriptors-file"); CHECK(none, "errors/no-descriptors-read_file"); c.count("open-errors", 2);
    CHECK(utl::read_file(plain.c_str()) == std::string("x"), "errors/recovers");
  }
  c.distinct(c.idx);
}

// sizes that do not fit into 31 or 32 bits (sparse: only a few bytes hold data)
SCENARIO(huge, 3, 6) {
  // three such files' worth of memory, or the case says nothing
  std::ifstream mi{"/proc/meminfo"};
  std::string line;
  std::uint64_t avail_kb = 0;
  while (std::getline(mi, line)) if (line.starts_with("MemAvailable:")) avail_kb = std::stoull(line.substr(13));
  auto const size = c.idx % 3 == 0 ? (std::uint64_t{1} << 32) + 1 + c.r.below(5000) : (std::uint64_t{1} << 31) + 1 + c.r.below(5000);
  auto const path = fdw::workdir() + "/huge.bin";
  std::vector<std::uint64_t> const at{0, 1, (std::uint64_t{1} << 30) + 3, (std::uint64_t{1} << 31) - 1, size - 2, size - 1};
  bool ok = avail_kb > (std::uint64_t{16} << 20);
  if (ok) {
    int const fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    ok = fd >= 0 && ::ftruncate(fd, static_cast<off_t>(size)) == 0;
    for (std::size_t i = 0; ok && i < at.size(); ++i) { char const x = static_cast<char>('A' + i); ok = ::pwrite(fd, &x, 1, static_cast<off_t>(at[i])) == 1; }
    if (fd >= 0) ::close(fd);
  }
  if (!ok) { ::unlink(path.c_str()); c.count("huge-unavailable"); return; }
  auto const good = [&](auto const* d, std::size_t n) {
    if (n != size) return false;
    for (std::size_t i = 0; i < at.size(); ++i) if (static_cast<char>(d[at[i]]) != static_cast<char>('A' + i)) return false;
    return d[size / 2 + 77] == 0 && d[size - 3] == 0;
  };
  auto const before = fdw::open_fds();
  try {
    if (c.idx % 3 == 0) {
      utl::file f{path.c_str(), "r"};
      auto b = f.content();
      CHECK(good(b.data(), b.size()), "huge/content", "size ", size, " got ", b.size());
    } else {
      if (c.idx % 3 == 1) {
        utl::file f{path.c_str(), "rb"};
        auto const t = f.content_str();
        CHECK(good(t.data(), t.size()), "huge/content_str", "size ", size, " got ", t.size());
      } else {
        auto const o = utl::read_file(path.c_str());
        CHECK(o.has_value(), "huge/read_file-failed", "size ", size);
        CHECK(good(o->data(), o->size()), "huge/read_file", "size ", size, " got ", o->size());
      }
    }
    c.count("huge-files");
  } catch (std::bad_alloc const&) { c.count("huge-unavailable"); }
  CHECK_EQ(before, fdw::open_fds(), "huge/descriptor-leak");
  ::unlink(path.c_str());
}
// single writes beyond a megabyte, with the pieces around the usual block sizes
SCENARIO(long_writes, 10, 60) {
  auto const p = fdw::workdir() + "/long.bin";
  auto const before = fdw::open_fds();
  std::vector<std::size_t> const sizes{(1U << 16U) - 1, 1U << 16U, (1U << 16U) + 1, (1U << 20U) - 1, 1U << 20U, (1U << 20U) + 1, (3U << 20U) + 77, (1U << 24U) + 3};
  auto word = c.r.next();
  std::string want;
  {
    utl::file f{p.c_str(), "w+"};
    for (std::size_t i = 0, n = 1 + c.r.below(3); i < n; ++i) {
      std::string s(c.r.pick(sizes), '\0');
      for (std::size_t k = 0; k + 8 <= s.size(); k += 8) { std::memcpy(s.data() + k, &word, 8); word = word * 6364136223846793005ULL + 1442695040888963407ULL; }
      gen::tight const t{s};
      f.write(t.p, t.n);
      want += s;
      c.count("writes");
    }
    CHECK_EQ(want.size(), f.size(), "long/size");
    CHECK(f.content_str() == want, "long/readback-same-handle", want.size());
    auto const b = f.content();
    CHECK(b.size() == want.size() && std::memcmp(b.data(), want.data(), want.size()) == 0, "long/readback-content", want.size());
  }
  CHECK(fdw::get(p) == want, "long/bytes-on-disk", want.size());
  CHECK(utl::read_file(p.c_str()) == want, "long/read_file", want.size());
  CHECK_EQ(before, fdw::open_fds(), "long/fd-leak");
  ::unlink(p.c_str());
  c.distinct(vf::hcomb(want.size(), word));
}
