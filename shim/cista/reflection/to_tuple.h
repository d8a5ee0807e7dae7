// Minimal stand-in for cista's aggregate reflection (structured bindings).
#pragma once
#include <tuple>
#include <type_traits>
#include <utility>

namespace cista {
namespace detail {
template <typename T, typename = void>
struct has_cista_members : std::false_type {};
template <typename T>
struct has_cista_members<T, std::void_t<decltype(std::declval<T&>().cista_members())>> : std::true_type {};
template <typename T>
inline constexpr bool has_cista_members_v = has_cista_members<std::decay_t<T>>::value;

struct any_t { template <typename T> operator T() const; };
template <typename T, std::size_t... I>
constexpr auto brace(std::index_sequence<I...>) -> decltype(T{((void)I, std::declval<any_t>())...}, std::true_type{});
template <typename T, std::size_t N, typename = void>
struct constructible_n : std::false_type {};
template <typename T, std::size_t N>
struct constructible_n<T, N, std::void_t<decltype(brace<T>(std::make_index_sequence<N>{}))>> : std::true_type {};
template <typename T, std::size_t N = 12>
constexpr std::size_t shim_arity() {
  if constexpr (N == 0) { return 0; }
  else if constexpr (constructible_n<T, N>::value) { return N; }
  else { return shim_arity<T, N - 1>(); }
}
}  // namespace detail

template <typename T>
auto to_tuple(T& t) {
  constexpr auto n = detail::shim_arity<std::remove_cv_t<T>>();
  static_assert(n >= 1 && n <= 12);
  if constexpr (n == 1) { auto& [a] = t; return std::tie(a); }
  else if constexpr (n == 2) { auto& [a, b] = t; return std::tie(a, b); }
  else if constexpr (n == 3) { auto& [a, b, c] = t; return std::tie(a, b, c); }
  else if constexpr (n == 4) { auto& [a, b, c, d] = t; return std::tie(a, b, c, d); }
  else if constexpr (n == 5) { auto& [a, b, c, d, e] = t; return std::tie(a, b, c, d, e); }
  else if constexpr (n == 6) { auto& [a, b, c, d, e, f] = t; return std::tie(a, b, c, d, e, f); }
  else if constexpr (n == 7) { auto& [a, b, c, d, e, f, g] = t; return std::tie(a, b, c, d, e, f, g); }
  else if constexpr (n == 8) { auto& [a, b, c, d, e, f, g, h] = t; return std::tie(a, b, c, d, e, f, g, h); }
  else if constexpr (n == 9) { auto& [a, b, c, d, e, f, g, h, i] = t; return std::tie(a, b, c, d, e, f, g, h, i); }
  else if constexpr (n == 10) { auto& [a, b, c, d, e, f, g, h, i, j] = t; return std::tie(a, b, c, d, e, f, g, h, i, j); }
  else if constexpr (n == 11) { auto& [a, b, c, d, e, f, g, h, i, j, k] = t; return std::tie(a, b, c, d, e, f, g, h, i, j, k); }
  else { auto& [a, b, c, d, e, f, g, h, i, j, k, l] = t; return std::tie(a, b, c, d, e, f, g, h, i, j, k, l); }
}
}  // namespace cista
