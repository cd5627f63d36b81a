// Hooks into the process the library runs in: thread creation, memory allocation and the number of
// processors. Included by exactly one translation unit of a harness. In a build with a sanitizer
// (VERIF_SANITIZER defined) thread creation is left alone, and allocations are reported by its library.
//
// With jitter on, threads start late and yield or sleep at random allocations, so that the operating
// system produces many different interleavings; the order in which threads pass these points is recorded.
#pragma once

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>

#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <new>

namespace hk {

inline std::atomic<bool> jitter{false};
inline std::atomic<std::uint64_t> jitter_seed{1};
inline std::atomic<long> created{0};   // threads started so far
inline std::atomic<long> live{0};      // threads started and not yet ended
inline std::atomic<long> max_live{0};
inline std::atomic<long> points{0};    // jitter points passed
inline std::atomic<std::uint64_t> order{0};
inline std::atomic<std::uint32_t> next_tid{1};
inline std::atomic<int> nprocs{8};

// Faults: how many more allocations or thread starts succeed (off if negative), and how many fail then.
inline std::atomic<long> allocs_left{-1};
inline std::atomic<long> allocs_to_fail{0};
inline std::atomic<long> threads_left{-1};
inline std::atomic<long> threads_to_fail{0};
inline std::atomic<long> faults{0};
inline std::atomic<bool> counting{false};
inline std::atomic<long> allocs{0};

// Places in the code that allocate, by the address after the call, with the number of their allocations.
struct Site {
  std::atomic<const void*> at{nullptr};
  std::atomic<long> n{0};
};
inline constexpr std::size_t MAX_SITES = 8192;
inline Site sites[MAX_SITES];
inline std::atomic<const void*> only_site{nullptr};  // if set, only allocations made there fail

inline void clear_sites() {
  for (auto& s : sites) {
    s.at = nullptr;
    s.n = 0;
  }
}

inline void count_site(const void* at) {
  auto i = (reinterpret_cast<std::uintptr_t>(at) * 0x9E3779B97F4A7C15ULL) >> 51;
  for (int k = 0; k < 64; ++k, i = (i + 1) % MAX_SITES) {
    const void* none = nullptr;
    if (sites[i].at.compare_exchange_strong(none, at) || none == at) {
      ++sites[i].n;
      return;
    }
  }
}

inline bool due(std::atomic<long>& left, std::atomic<long>& to_fail) {
  if (left.load(std::memory_order_relaxed) < 0) return false;
  if (left.fetch_sub(1) > 0) return false;
  left = 0;
  if (to_fail.fetch_sub(1) <= 0) {
    left = -1;
    return false;
  }
  ++faults;
  return true;
}

// Allocations of this thread that are exempt from failing, and what new threads do exempt.
inline thread_local bool exempt = false;
inline std::atomic<void (*)()> at_thread_start{nullptr};

inline bool allocation_fails(const void* at) {
  if (exempt) return false;
  if (counting.load(std::memory_order_relaxed)) {
    ++allocs;
    count_site(at);
  }
  if (auto* only = only_site.load(std::memory_order_relaxed); only && only != at) return false;
  return due(allocs_left, allocs_to_fail);
}

inline void no_faults() {
  allocs_left = -1;
  threads_left = -1;
  only_site = nullptr;
}

struct Local {
  std::uint64_t s{0};
  std::uint32_t tid{0};
};
inline thread_local Local local;

inline std::uint64_t draw() {
  auto& l = local;
  if (l.s == 0) {
    if (l.tid == 0) l.tid = next_tid++;
    l.s = jitter_seed.load(std::memory_order_relaxed) * 0x9E3779B97F4A7C15ULL + l.tid * 0xD1342543DE82EF95ULL + 1;
  }
  l.s ^= l.s << 13;
  l.s ^= l.s >> 7;
  l.s ^= l.s << 17;
  return l.s;
}

inline void sleep_ns(long ns) {
  timespec t{0, ns};
  nanosleep(&t, nullptr);
}

inline void mark() {
  auto old = order.load(std::memory_order_relaxed);
  while (!order.compare_exchange_weak(old, (old ^ local.tid) * 0x100000001B3ULL + 0x9E37, std::memory_order_relaxed)) {
  }
  points.fetch_add(1, std::memory_order_relaxed);
}

inline void point() {
  if (!jitter.load(std::memory_order_relaxed)) return;
  auto d = draw();
  if ((d & 63) != 0) return;
  mark();
  d >>= 6;
  if ((d & 63) == 0) {
    sleep_ns(static_cast<long>(1000 + (d >> 6) % 60000));
  } else if ((d & 3) == 0) {
    sched_yield();
  }
}

struct Start {
  void* (*fn)(void*);
  void* arg;
};

inline void* trampoline(void* p) {
  auto* s = static_cast<Start*>(p);
  auto fn = s->fn;
  auto* arg = s->arg;
  std::free(s);
  if (jitter.load()) {
    auto d = draw();
    mark();
    if (d % 3 == 0) sleep_ns(static_cast<long>((d >> 8) % 200000));
  }
  struct End {
    ~End() { --live; }
  } end;
  if (auto* f = at_thread_start.load()) {
    exempt = true;
    f();
    exempt = false;
  }
  return fn(arg);
}

// Starts the recording of one operation.
inline void begin(std::uint64_t seed, bool with_jitter) {
  jitter_seed = seed | 1;
  next_tid = 1;
  local = {};
  order = 0;
  points = 0;
  created = 0;
  max_live = live.load();
  jitter = with_jitter;
}

inline void end() { jitter = false; }

}  // namespace hk

#ifndef VERIF_SANITIZER
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  using Fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (hk::due(hk::threads_left, hk::threads_to_fail)) return EAGAIN;
  static const auto real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "pthread_create"));
  auto* s = static_cast<hk::Start*>(std::malloc(sizeof(hk::Start)));
  *s = {fn, arg};
  ++hk::created;
  auto n = ++hk::live;
  auto m = hk::max_live.load();
  while (m < n && !hk::max_live.compare_exchange_weak(m, n)) {
  }
  int r = real(t, a, hk::trampoline, s);
  if (r != 0) {
    --hk::live;
    std::free(s);
  }
  return r;
}
#endif

extern "C" int get_nprocs() noexcept { return hk::nprocs.load(); }

#ifdef VERIF_SANITIZER
// Called by the sanitizer's run-time library for every allocation.
extern "C" void __sanitizer_malloc_hook(const volatile void*, std::size_t) { hk::point(); }
extern "C" void __sanitizer_free_hook(const volatile void*) {}
#else
static void* allocate(std::size_t n, const void* at) {
  hk::point();
  if (hk::allocation_fails(at)) throw std::bad_alloc{};
  if (void* p = std::malloc(n ? n : 1)) return p;
  throw std::bad_alloc{};
}
__attribute__((noinline)) void* operator new(std::size_t n) { return allocate(n, __builtin_return_address(0)); }
__attribute__((noinline)) void* operator new[](std::size_t n) { return allocate(n, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif
