// C09: tracker registry, active tracker, progress-bars scope, printing.
#include "conc.h"

#include <map>
#include <thread>
#include <vector>

#include "utl/progress_tracker.h"

namespace {
// collects what goes to std::cout
struct capture {
  struct buf : std::streambuf {
    int_type overflow(int_type ch) override { if (ch != traits_type::eof()) text.push_back(static_cast<char>(ch)); return traits_type::not_eof(ch); }
    std::streamsize xsputn(char const* s, std::streamsize n) override { text.append(s, static_cast<std::size_t>(n)); return n; }
    std::string text;
  };
  capture() : old{std::cout.rdbuf(&b)} {}
  ~capture() { std::cout.rdbuf(old); }
  std::string take() { std::string s; s.swap(b.text); return s; }
  buf b;
  std::streambuf* old;
};

// what a terminal would show
struct terminal {
  std::vector<std::string> lines{""};
  std::size_t row = 0;
  bool overrun = false;
  void feed(std::string const& s) {
    for (std::size_t i = 0; i < s.size(); ++i) {
      if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
        std::size_t n = 0;
        i += 2;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') n = n * 10 + static_cast<std::size_t>(s[i++] - '0');
        if (i < s.size() && s[i] == 'A') { if (n == 0) n = 1; if (n > row) { overrun = true; n = row; } row -= n; }
        else if (i < s.size() && s[i] == 'K') lines[row].resize(std::min(lines[row].size(), col));
      } else if (s[i] == '\n') {
        if (++row == lines.size()) lines.emplace_back();
        col = 0;
      } else {
        auto& l = lines[row];
        if (col < l.size()) l[col] = s[i]; else l += s[i];
        ++col;
      }
    }
  }
  std::size_t col = 0;
};

struct shown { std::string name, status; bool show; float out; };

// one printed line against the tracker it stands for
std::string check_line(std::string const& line, shown const& t) {
  if (line.find(t.name + ":") == std::string::npos) return "name";
  auto const after = line.substr(line.find(t.name + ":") + t.name.size());
  if (!t.status.empty() && (after.size() < t.status.size() || after.substr(after.size() - t.status.size()) != t.status)) return "status";
  auto const head = after.substr(0, after.size() - t.status.size());
  auto const pc = head.find('%');
  if (!t.show) return pc == std::string::npos && head.find("■") == std::string::npos ? "" : "percentage although not shown";
  if (pc == std::string::npos || head.find('%', pc + 1) != std::string::npos) return "percentage missing";
  auto b = pc;
  while (b > 0 && (std::isdigit(static_cast<unsigned char>(head[b - 1])) || head[b - 1] == '-')) --b;
  if (b == pc || std::abs(std::stof(head.substr(b, pc - b)) - t.out) >= 1.F) return "percentage";
  // bar: filled cells over all cells within two cells of the value
  std::size_t full = 0;
  for (auto p = head.find("■"); p != std::string::npos && p < pc; p = head.find("■", p + 3)) ++full;
  auto const open = head.find('['), close = head.find(']');
  if (open == std::string::npos || close == std::string::npos || close < open) return "bar";
  auto const inside = head.substr(open + 1, close - open - 1);
  auto const cells = inside.size() - 2 * full;
  if (t.out >= 0 && t.out <= 100 && std::abs(static_cast<double>(full) / static_cast<double>(cells) * 100. - t.out) > 5.) return "bar length";
  return "";
}

struct model {
  struct tr { utl::progress_tracker_ptr p; std::string status; bool show = true; };
  std::map<std::string, tr> reg;
  utl::progress_tracker_ptr active;
  std::vector<bool> silent{true};
};

// the lines of the current frame and nothing else below `base`
void check_screen(vf::ctx& c, terminal const& t, std::size_t base, model const& m, std::string const& hist) {
  CHECK(!t.overrun, "cursor moved above the first line", hist);
  CHECK_EQ(m.reg.size(), t.row - base, "lines on the screen", hist, " screen ", t.lines);
  CHECK(t.lines[t.row].empty(), "text after the last line", hist, " screen ", t.lines);
  std::vector<char> used(t.row, 0);
  for (auto const& [name, x] : m.reg) {
    bool found = false;
    std::string why;
    for (auto i = base; i < t.row && !found; ++i) {
      if (used[i]) continue;
      auto const w = check_line(t.lines[i], shown{name, x.status, x.show, x.p->out_.load()});
      if (w.empty()) { found = true; used[i] = 1; }
      else if (w != "name") why += w + " in '" + t.lines[i] + "' ";
    }
    CHECK(found, "no line shows the tracker", name, " status '", x.status, "' show ", x.show, " value ", x.p->out_.load(), "; ", why, "; ", hist, " screen ", t.lines);
  }
  c.count("lines", m.reg.size());
}

std::string const names[] = {"alpha", "beta", "gamma", "delta", "a name that is longer than twelve characters", "zeta", "eta2"};
std::string const odd_names[] = {"{}", "{0:>5}x", "%s%n%d", "Gr\xc3\xb6\xc3\x9f" "e \xe2\x96\xa0", "with [brackets] 50%", "[1;2A", "q" + std::string(299, 'n')};

// names that differ only in case or in their last characters are different names
std::string const close_names[] = {"alpha", "Alpha", "alpha ", "ALPHA", "alphab", "alph", "alpha  "};

}  // namespace

SCENARIO(histories, 16000, 500000) {
  capture cap;
  auto& g = utl::get_global_progress_trackers();
  CHECK(&g == &utl::get_global_progress_trackers(), "registry is not unique");
  model m;
  terminal term;
  std::size_t base = 0;  // first line of the current epoch (since the last clear)
  std::string hist;
  std::vector<std::unique_ptr<utl::global_progress_bars>> bars;
  std::vector<utl::progress_tracker_ptr> old;  // of cleared registries, kept alive
  auto const silent = [&] { return m.silent.back(); };
  auto const clear_model = [&] {
    for (auto& [n, x] : m.reg) old.push_back(x.p);
    if (m.active) old.push_back(m.active);
    m.reg.clear();
    m.active = nullptr;
    base = term.row;
  };
  auto const lookup = [&](std::string const& n, utl::progress_tracker_ptr p) {
    CHECK(p != nullptr, "null tracker", hist);
    auto const it = m.reg.find(n);
    if (it != m.reg.end()) { CHECK(it->second.p == p, "another tracker for the same name", n, " ", hist); c.count("repeated-lookups"); return; }
    for (auto const& [k, x] : m.reg) CHECK(x.p != p, "same tracker for different names", n, " and ", k, " ", hist);
    for (auto const& o : old) CHECK(o != p, "tracker of a cleared registry", n, " ", hist);
    CHECK(p->status_.empty() && p->show_progress_ && p->out_ == 0.F, "new tracker is not in its initial state", n, " ", hist);
    m.reg[n] = {p, "", true};
  };
  // output of an operation that may have printed
  auto const after = [&](bool must_print) {
    auto const out = cap.take();
    if (silent()) { CHECK(out.empty(), "output although silent", out, " ", hist); return; }
    if (must_print) CHECK(!out.empty() || m.reg.empty(), "nothing printed", hist);
    if (out.empty()) return;
    term.feed(out);
    // one print writes exactly one line per tracker (moving up first)
    auto const nl = static_cast<std::size_t>(std::count(out.begin(), out.end(), '\n'));
    CHECK_EQ(m.reg.size(), nl, "lines written by one print", hist, " output ", out);
    check_screen(c, term, base, m, hist);
    c.count("frames");
  };
  auto const n = 3 + c.r.below(30);
  for (std::size_t i = 0; i < n; ++i) {
    auto const& set = c.idx % 4 == 3 ? odd_names : c.idx % 4 == 1 ? close_names : names;
    auto const& name = set[c.r.below(c.r.chance(1, 2) ? 3 : std::size(names))];
    switch (c.r.below(14)) {
      case 0: hist += " get(" + name + ")"; lookup(name, g.get_tracker(name)); after(false); break;
      case 1: {
        hist += " activate(" + name + ")";
        auto const p = utl::activate_progress_tracker(name);
        lookup(name, p);
        m.active = p;
        CHECK(utl::get_active_progress_tracker() == p, "active tracker", hist);
        after(false);
        break;
      }
      case 2: {
        if (c.r.chance(1, 3)) {  // a tracker that is not in the registry
          auto const p = !old.empty() && c.r.chance(1, 2) ? c.r.pick(old) : std::make_shared<utl::progress_tracker>([](auto const&) {});
          hist += " activate-unregistered";
          CHECK(utl::activate_progress_tracker(p) == p, "activate returns another tracker", hist);
          CHECK(utl::get_active_progress_tracker() == p, "active tracker", hist);
          m.active = p;
          c.count("unregistered-active");
          break;
        }
        if (m.reg.empty()) break;
        auto const& x = c.r.pick(m.reg);
        hist += " activate-ptr(" + x.first + ")";
        CHECK(utl::activate_progress_tracker(x.second.p) == x.second.p, "activate returns another tracker", hist);
        m.active = x.second.p;
        break;
      }
      case 3: {
        hist += " active";
        bool threw = false;
        utl::progress_tracker_ptr p;
        try { p = utl::get_active_progress_tracker(); } catch (std::exception const&) { threw = true; }
        CHECK_EQ(m.active == nullptr, threw, "exception without an active tracker", hist);
        if (!threw) CHECK(p == m.active, "active tracker is not the one activated last", hist);
        c.count(threw ? "no-active" : "active");
        break;
      }
      case 4: case 5: {
        hist += " active-or(" + name + ")";
        auto const p = utl::get_active_progress_tracker_or_activate(name);
        if (m.active) CHECK(p == m.active, "get-or-activate did not return the active tracker", hist);
        else { lookup(name, p); m.active = p; c.count("activated"); }
        CHECK(utl::get_active_progress_tracker() == p, "get-or-activate did not activate", hist);
        after(false);
        break;
      }
      case 6: {
        if (c.r.chance(2, 3)) break;
        hist += " clear";
        g.clear();
        clear_model();
        after(false);
        bool threw = false;
        try { utl::get_active_progress_tracker(); } catch (std::exception const&) { threw = true; }
        CHECK(threw, "active tracker after clear", hist);
        c.count("clears");
        break;
      }
      case 7: {
        auto const s = c.r.chance(1, 4);
        hist += s ? " bars(silent)" : " bars";
        bars.push_back(std::make_unique<utl::global_progress_bars>(s));
        m.silent.push_back(s);
        after(false);
        c.count("scopes");
        break;
      }
      case 8: {
        if (bars.empty() || c.r.chance(1, 2)) break;
        hist += " end-bars";
        bars.pop_back();
        auto const out = cap.take();
        CHECK(out.empty(), "output at the end of a scope", out, " ", hist);
        m.silent.pop_back();
        clear_model();
        CHECK(g.trackers_.empty(), "registry not cleared at the end of the scope", hist);
        bool threw = false;
        try { utl::get_active_progress_tracker(); } catch (std::exception const&) { threw = true; }
        CHECK(threw, "active tracker at the end of the scope", hist);
        break;
      }
      case 9: hist += " print"; g.print(); after(true); break;
      case 10: case 11: {
        if (m.reg.empty()) break;
        auto it = m.reg.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(c.r.below(m.reg.size())));
        auto& x = it->second;
        if (c.r.chance(1, 2)) {
          auto const s = c.r.pick({std::string{"loading"}, std::string{"x"}, std::string{}, std::string{"quite a long status text for a single line"}, std::string{"{} of {1}"}, std::string{" step 2"}, std::string{"done "}, std::string{" "}, std::string{"|"}, std::string{"0"}, std::string{"100% [done] %s"}, std::string{"\xe2\x96\xa0 | |"}});
          auto const p = c.r.chance(2, 3);
          hist += " " + it->first + ".status(" + s + "," + (p ? "1" : "0") + ")";
          bool const changed = x.status != s || x.show != p;
          x.status = s;
          x.show = p;
          x.p->status(s).show_progress(p);
          after(changed);
        } else {
          auto const v = c.r.below(130);
          float const was = x.p->out_;
          hist += " " + it->first + ".update(" + std::to_string(v) + ")";
          x.p->update(v);
          after(x.p->out_ != was);
        }
        break;
      }
      case 12: {  // trackers of a cleared registry still work but are not shown
        if (old.empty()) break;
        hist += " old.update";
        c.r.pick(old)->update(c.r.below(100));
        after(false);
        break;
      }
      default: {
        if (m.reg.empty()) break;
        auto& [k, x] = *m.reg.begin();
        hist += " " + k + ".bounds";
        auto const lo = static_cast<float>(c.r.below(50));
        x.p->out_bounds(lo, lo + 50);
        after(false);
        break;
      }
    }
    c.count("operations");
  }
  while (!bars.empty()) {
    bars.pop_back();
    m.silent.pop_back();
    CHECK_EQ(static_cast<bool>(m.silent.back()), g.silent_, "silent flag not restored", hist);
    clear_model();
    (void)cap.take();
    g.get_tracker("left");
    g.print();
    CHECK_EQ(static_cast<bool>(m.silent.back()), cap.take().empty(), "silent flag not restored", hist);
    g.clear();
  }
  g.clear();
  c.distinct(vf::hstr(hist));
  if (c.want_sample() && n > 6) c.sample(hist);
}

// more trackers than any fixed number: each has its line, each is found again
SCENARIO(many_trackers, 40, 1500) {
  capture cap;
  auto& g = utl::get_global_progress_trackers();
  auto const n = c.r.pick({9u, 17u, 33u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 200u, 255u, 256u, 257u, 300u});
  {
    utl::global_progress_bars bars{false};
    model m;
    terminal term;
    auto const name = [](std::size_t i) { return "t" + std::to_string(i); };
    auto const hist = "trackers " + std::to_string(n);
    for (std::size_t i = 0; i < n; ++i) {
      auto const p = i % 7 == 3 ? utl::activate_progress_tracker(name(i)) : g.get_tracker(name(i));
      CHECK(p != nullptr, "null tracker", hist);
      for (auto const& [k, x] : m.reg) CHECK(x.p != p, "same tracker for different names", name(i), " and ", k);
      m.reg[name(i)] = {p, "", true};
      if (auto const out = cap.take(); !out.empty()) term.feed(out);
    }
    for (std::size_t k = 0; k < 25; ++k) {
      auto const i = c.r.chance(1, 3) ? n - 1 : c.r.below(n);
      auto& x = m.reg[name(i)];
      switch (c.r.below(4)) {
        case 0: g.print(); break;
        case 1: x.p->update(c.r.below(120)); break;
        case 2: x.status = "s" + std::to_string(c.r.below(100)); x.p->status(x.status); break;
        default: x.show = !x.show; x.p->show_progress(x.show); break;
      }
      CHECK(g.get_tracker(name(i)) == x.p, "another tracker for the same name", name(i));
      auto const out = cap.take();
      if (out.empty()) continue;
      term.feed(out);
      CHECK_EQ(m.reg.size(), static_cast<std::size_t>(std::count(out.begin(), out.end(), '\n')), "lines written by one print", hist);
      if (term.row == n) { check_screen(c, term, 0, m, hist); c.count("large-frames"); }
      else CHECK_EQ(static_cast<std::size_t>(n), term.row, "lines on the screen", hist);
    }
    CHECK_EQ(static_cast<std::size_t>(n), g.trackers_.size(), "registered trackers", hist);
  }
  (void)cap.take();
  c.distinct(vf::hcomb(n, c.idx));
}

// several threads get, activate, print; the results fit one registry
SCENARIO(concurrent, 12000, 500000) {
  capture cap;
  auto cfg = conc::draw(c);
  auto const threads = 2 + c.r.below(3), per = 1 + c.r.below(5);
  auto const seed = c.r.next();
  struct got { std::string name; utl::progress_tracker_ptr p; };
  std::vector<std::vector<got>> by(threads);
  std::vector<utl::progress_tracker_ptr> first(threads);
  std::string out;
  auto const mode = c.idx % 3;
  conc::session(c, cfg, [&] {
    utl::global_progress_bars bars{false};
    auto& g = utl::get_global_progress_trackers();
    {
      std::vector<std::thread> ts;
      for (std::size_t w = 0; w < threads; ++w) {
        ts.emplace_back([&, w] {
          vf::rng r{vf::hcomb(seed, w)};
          if (mode == 0) first[w] = utl::get_active_progress_tracker_or_activate("thread" + std::to_string(w));
          for (std::size_t i = 0; i < per; ++i) {
            auto const name = names[r.below(4)];
            switch (r.below(mode == 0 ? 3 : 6)) {
              case 0: by[w].push_back({name, g.get_tracker(name)}); break;
              case 1: g.print(); break;
              case 2: { auto const t = g.get_tracker(name); by[w].push_back({name, t}); t->update(r.below(100)); break; }
              case 3: by[w].push_back({name, utl::activate_progress_tracker(name)}); break;
              case 4: { auto const t = g.get_tracker(name); t->status("s" + std::to_string(r.below(5))); break; }
              default: (void)utl::get_active_progress_tracker_or_activate(name); break;
            }
          }
        });
      }
      for (auto& t : ts) t.join();
    }
    g.print();
    out = cap.take();
    // what is registered now
    std::map<std::string, utl::progress_tracker_ptr> reg;
    for (auto const& [n, t] : g.trackers_) reg[n] = t;
    for (std::size_t w = 0; w < threads; ++w) {
      for (auto const& x : by[w]) {
        if (reg[x.name] != x.p) { c.violate("two trackers for one name", vf::cat("name ", x.name, " threads ", threads)); return; }
        c.count("concurrent-lookups");
      }
      if (mode == 0 && first[w] != first[0]) { c.violate("get-or-activate returned different active trackers", vf::cat("threads ", threads)); return; }
    }
    if (mode == 0) {
      std::size_t made = 0;
      for (auto const& [n, t] : reg) made += n.rfind("thread", 0) == 0;
      if (made != 1) { c.violate("get-or-activate created several trackers", vf::cat(made)); return; }
      if (utl::get_active_progress_tracker() != first[0]) { c.violate("active tracker", ""); return; }
    }
    model m;
    for (auto const& [n, t] : reg) m.reg[n] = {t, t->status_, t->show_progress_};
    terminal term;
    term.feed(out);
    CHECK(!reg.empty() || out.empty(), "output without trackers", out);
    check_screen(c, term, 0, m, "concurrent");
    c.count("concurrent-frames");
  });
}
