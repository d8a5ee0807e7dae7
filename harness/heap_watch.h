// Counts live heap blocks through the sanitizer's malloc/free hooks.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, std::size_t), void (*f)(const volatile void*));
namespace heap {
inline std::atomic<std::int64_t> blocks{0};
inline std::atomic<std::uint64_t> events{0};
inline void on_malloc(const volatile void* p, std::size_t) { if (p) { ++blocks; ++events; } }
inline void on_free(const volatile void* p) { if (p) { --blocks; ++events; } }
inline void install() {
  static bool const once = (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true);
  (void)once;
}
}  // namespace heap
