// Minimal stand-in for cista::raw::generic_string (cista is not available
// offline). What utl's parsers use is a non-owning view with copy-on-write
// erase; the rest is there so that an edited parser still compiles. Written
// independently of cista.
#pragma once
#include <cstring>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>

namespace cista::raw {
struct generic_string {
  generic_string() = default;
  generic_string(std::string_view s) : own_{std::string{s}}, owning_{true} {}
  generic_string(char const* s) : generic_string(std::string_view{s}) {}
  generic_string(std::string const& s) : generic_string(std::string_view{s}) {}
  template <typename S>
    requires(std::is_convertible_v<S const&, std::string_view> && !std::is_same_v<S, generic_string>)
  generic_string& operator=(S const& s) { std::string_view const v = s; set_owning(v.data(), v.size()); return *this; }
  void set_owning(std::string_view s) { set_owning(s.data(), s.size()); }
  void set_owning(std::string const& s) { set_owning(s.data(), s.size()); }
  void set_non_owning(std::string_view s) { set_non_owning(s.data(), s.size()); }
  void reset() { *this = generic_string{}; }
  void clear() { set_owning("", 0); }
  void assign(char const* p, std::size_t len) { set_owning(p, len); }
  void resize(std::size_t n) { make_own(); own_.resize(n); }
  generic_string& append(std::string_view s) { make_own(); own_.append(s); return *this; }
  generic_string& operator+=(std::string_view s) { return append(s); }
  generic_string& operator+=(char c) { return append({&c, 1}); }
  void push_back(char c) { append({&c, 1}); }
  void set_non_owning(char const* p, std::size_t len) {
    owning_ = false; own_.clear(); ptr_ = p; len_ = static_cast<unsigned>(len);
  }
  void set_owning(char const* p, std::size_t len) {
    own_ = p ? std::string{p, len} : std::string{}; owning_ = true;
  }
  bool is_owning() const { return owning_; }
  char const* data() const { return owning_ ? own_.data() : ptr_; }
  std::size_t size() const { return owning_ ? own_.size() : len_; }
  bool empty() const { return size() == 0; }
  char operator[](std::size_t i) const { return data()[i]; }
  std::size_t length() const { return size(); }
  char const* begin() const { return data(); }
  char const* end() const { return data() + size(); }
  friend char const* begin(generic_string const& s) { return s.begin(); }
  friend char const* end(generic_string const& s) { return s.end(); }
  void erase(std::size_t pos, std::size_t n = std::string::npos) {
    make_own();
    own_.erase(pos, n);
  }
  std::string str() const { return std::string{view()}; }
  std::string_view view() const { return {data(), size()}; }
  operator std::string_view() const { return view(); }
  friend bool operator==(generic_string const& a, generic_string const& b) { return a.view() == b.view(); }
  friend bool operator==(generic_string const& a, char const* b) { return a.view() == b; }
  friend bool operator==(generic_string const& a, std::string_view b) { return a.view() == b; }
  friend std::ostream& operator<<(std::ostream& o, generic_string const& s) { return o << s.view(); }
  void make_own() {
    if (!owning_) { own_.assign(ptr_ ? ptr_ : "", len_); owning_ = true; }
  }
  std::string own_;
  char const* ptr_{nullptr};
  unsigned len_{0};
  bool owning_{false};
};
}  // namespace cista::raw
