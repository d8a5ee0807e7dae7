// Descriptor and mapping accounting: close() is interposed in this executable
// (forwarding to the kernel), so closing a descriptor that is not open - the
// second close of an already released one - is seen.
#pragma once
#include "vf.h"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
namespace fdw {
inline std::uint64_t closes = 0, bad_closes = 0;
inline std::set<int> open_fds() {
  std::set<int> s;
  for (int i = 0; i < 256; ++i) if (::fcntl(i, F_GETFD) != -1) s.insert(i);
  return s;
}
inline int mappings_of(std::string const& path) {
  static char buf[1 << 20];
  int const fd = ::open("/proc/self/maps", O_RDONLY | O_CLOEXEC);
  std::string all;
  for (ssize_t n; (n = ::read(fd, buf, sizeof buf)) > 0;) all.append(buf, static_cast<std::size_t>(n));
  ::syscall(SYS_close, fd);
  int n = 0;
  for (std::size_t p = 0; (p = all.find(path, p)) != std::string::npos; ++p) ++n;
  return n;
}
inline std::string workdir() { auto const w = std::getenv("VF_WORKDIR"); return w ? w : "."; }
inline std::string put(std::string const& name, std::string_view bytes) {
  auto const p = workdir() + "/" + name;
  int const fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0) std::abort();
  for (std::size_t o = 0; o < bytes.size();) { auto const k = ::write(fd, bytes.data() + o, bytes.size() - o); if (k <= 0) std::abort(); o += static_cast<std::size_t>(k); }
  ::syscall(SYS_close, fd);
  return p;
}
inline std::string get(std::string const& p) {
  int const fd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC);
  std::string s; char b[65536];
  for (ssize_t n; (n = ::read(fd, b, sizeof b)) > 0;) s.append(b, static_cast<std::size_t>(n));
  ::syscall(SYS_close, fd);
  return s;
}
inline std::size_t file_size(vf::rng& r) {  // around pages and stdio buffers
  switch (r.below(7)) {
    case 0: return 0;
    case 1: return r.below(5);
    case 2: return r.below(200);
    case 3: return 4096 * r.below(5) + r.below(3) - (r.chance(1, 2) ? 1 : 0) & 0xffff;
    case 4: return (std::size_t{1} << r.below(17)) + r.below(3) - 1;
    case 5: return r.below(9000);
    default: return r.below(150000);
  }
}
}  // namespace fdw
extern "C" int close(int fd) {
  ++fdw::closes;
  long const r = ::syscall(SYS_close, fd);
  if (r != 0) { ++fdw::bad_closes; return -1; }
  return 0;
}
