// Counts the memory allocated by C++ code: how much is live, and the most there was since a mark.
// Included by exactly one translation unit of a harness.
#pragma once

#include <malloc.h>

#include <atomic>
#include <cstdlib>
#include <new>

namespace mem {
inline std::atomic<long> live{0};
inline std::atomic<long> peak{0};
inline void add(long n) {
  auto x = live.fetch_add(n, std::memory_order_relaxed) + n;
  auto p = peak.load(std::memory_order_relaxed);
  while (p < x && !peak.compare_exchange_weak(p, x, std::memory_order_relaxed)) {
  }
}
inline void mark() { peak = live.load(); }
}  // namespace mem

#ifdef VERIF_SANITIZER
#include <sanitizer/allocator_interface.h>
extern "C" void __sanitizer_malloc_hook(const volatile void*, std::size_t n) { mem::add(static_cast<long>(n)); }
extern "C" void __sanitizer_free_hook(const volatile void* p) {
  if (p) mem::add(-static_cast<long>(__sanitizer_get_allocated_size(p)));
}
#else
void* operator new(std::size_t n) {
  if (void* p = std::malloc(n ? n : 1)) {
    mem::add(static_cast<long>(malloc_usable_size(p)));
    return p;
  }
  throw std::bad_alloc{};
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
  if (p) mem::add(-static_cast<long>(malloc_usable_size(p)));
  std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
#endif
