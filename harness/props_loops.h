// C15: Parallel loops and sorts.
#pragma once

#include "hooks.h"
#include "props_bool.h"

#include <kigumi/parallel_do.h>
#include <kigumi/parallel_sort.h>

#include <atomic>
#include <deque>
#include <mutex>
#include <thread>
#include <utility>

struct Body_failed {
  std::size_t item;
};

// What happened in one loop. Every access is ordered by the lock, which is held briefly.
struct Loop_log {
  std::mutex m;
  std::vector<int> calls;          // per item
  std::vector<std::size_t> order;  // items, in the order their bodies began
  long active{0};                  // bodies in progress
  bool returned{false};
  std::string error;
  std::set<std::size_t> threads;
  std::set<std::size_t> thrown;

  void fail(const std::string& e) {
    if (error.empty()) error = e;
  }
};

// The state of a worker: knows the items it was used for, and whether two threads use it at once.
struct Worker_state {
  int token{0};
  std::vector<std::size_t> items;
  std::unique_ptr<int> owned;  // a state that manages memory
  std::atomic<int> users{0};
  bool merged{false};

  explicit Worker_state(int t) : token{t}, owned{std::make_unique<int>(t)} {}
  Worker_state(const Worker_state& o) : token{o.token}, items{o.items}, owned{o.owned ? std::make_unique<int>(*o.owned) : nullptr}, merged{o.merged} {}
  Worker_state(Worker_state&& o) noexcept : token{o.token}, items{std::move(o.items)}, owned{std::move(o.owned)}, merged{o.merged} {}
  Worker_state& operator=(const Worker_state&) = delete;
};

struct Release_state {
  Worker_state& s;
  ~Release_state() { --s.users; }
};

inline void dawdle(int style, std::size_t i, std::uint64_t salt) {
  auto d = mix64(salt, i);
  switch (style) {
    case 0:
      return;
    case 1:
      if (d % 4 == 0) sched_yield();
      return;
    case 2:
      if (d % 8 == 0) hk::sleep_ns(static_cast<long>(d >> 8) % 50000 & 0xffff);
      return;
    default:  // one slow item
      if (i == salt % 7) hk::sleep_ns(300000);
      return;
  }
}

struct Loop_case {
  std::size_t n;
  std::size_t nt;
  int style;
  std::uint64_t salt;
  std::set<std::size_t> throwing;
  std::set<std::size_t> slow_throw;  // wait before throwing
  bool with_state;
  int container;
};

template <class It, class Get>
void run_loop(It first, It last, Get get, const Loop_case& q, Loop_log& log) {
  log.calls.assign(q.n, 0);
  auto enter = [&](std::size_t i) {
    std::lock_guard l{log.m};
    if (log.returned) log.fail("a body is called after the loop has returned");
    ++log.active;
    log.order.push_back(i);
    log.threads.insert(std::hash<std::thread::id>{}(std::this_thread::get_id()));
    if (i < log.calls.size())
      ++log.calls[i];
    else
      log.fail(fmt("the body is called for item %zu of %zu", i, q.n));
  };
  struct Leave {
    Loop_log& log;
    ~Leave() {
      std::lock_guard l{log.m};
      --log.active;
      if (log.returned) log.fail("a body ends after the loop has returned");
    }
  };
  auto body = [&](std::size_t i) {
    enter(i);
    Leave leave{log};
    dawdle(q.style, i, q.salt);
    if (q.throwing.contains(i)) {
      if (q.slow_throw.contains(i)) hk::sleep_ns(200000);
      {
        std::lock_guard l{log.m};
        log.thrown.insert(i);
      }
      throw Body_failed{i};
    }
  };
  std::vector<std::size_t> merged;
  std::atomic<int> in_merge{0};
  bool threw = false;
  try {
    kigumi::Threading_context ctx{Thread_setting{q.nt}.o};
    if (q.with_state) {
      kigumi::parallel_do(
          first, last, Worker_state{42},
          [&](auto&& x, Worker_state& s) {
            auto i = get(x);
            if (++s.users != 1) {
              std::lock_guard l{log.m};
              log.fail("two bodies use one state at the same time");
            }
            if (s.token != 42 || !s.owned || *s.owned != 42) {
              std::lock_guard l{log.m};
              log.fail("a worker did not start with a copy of the state given");
            }
            s.items.push_back(i);
            Release_state release{s};
            body(i);
          },
          [&](Worker_state& s) {
            if (in_merge++ != 0) {
              std::lock_guard l{log.m};
              log.fail("two states are merged at the same time");
            }
            dawdle(1, s.items.size(), q.salt);
            {
              std::lock_guard l{log.m};
              if (log.returned) log.fail("a state is merged after the loop has returned");
              if (s.users != 0) log.fail("a state is merged while a body uses it");
              if (std::exchange(s.merged, true)) log.fail("a state is merged twice");
            }
            merged.insert(merged.end(), s.items.begin(), s.items.end());
            --in_merge;
          });
    } else {
      kigumi::parallel_do(first, last, [&](auto&& x) { body(get(x)); });
    }
  } catch (const Body_failed& e) {
    threw = true;
    std::lock_guard l{log.m};
    if (!log.thrown.contains(e.item)) log.fail("an exception reaches the caller that no body has thrown");
  } catch (...) {
    threw = true;
    std::lock_guard l{log.m};
    log.fail("an exception of another type reaches the caller");
  }
  std::lock_guard l{log.m};
  log.returned = true;
  if (log.active != 0) log.fail("the loop returns while bodies are running");
  if (threw != !log.thrown.empty()) log.fail(threw ? "an exception reaches the caller though no body threw" : "a body threw but the caller is not told");
  for (std::size_t i = 0; i < q.n; ++i)
    if (log.calls[i] > 1 || (log.calls[i] == 0 && log.thrown.empty())) log.fail(fmt("item %zu of %zu is visited %d times", i, q.n, log.calls[i]));
  if (q.with_state && log.thrown.empty()) {
    std::sort(merged.begin(), merged.end());
    bool ok = merged.size() == q.n;
    for (std::size_t i = 0; i < merged.size() && ok; ++i) ok = merged[i] == i;
    if (!ok) log.fail(fmt("the merged states account for %zu of %zu items", merged.size(), q.n));
  }
  if (q.with_state && !log.thrown.empty()) {
    std::sort(merged.begin(), merged.end());
    if (std::adjacent_find(merged.begin(), merged.end()) != merged.end()) log.fail("an item is merged twice");
  }
}

// Elements whose loss or duplication shows.
struct Sorted {
  int key;
  std::string tag;
  bool operator==(const Sorted&) const = default;
  bool operator<(const Sorted& o) const { return key < o.key; }
};

template <class T, class Cmp>
std::string check_sort(std::vector<T> v, std::size_t nt, Cmp cmp, bool plain, int container) {
  auto all = v;
  std::vector<T> got;
  {
    kigumi::Threading_context ctx{Thread_setting{nt}.o};
    if (container == 0) {
      if (plain) {
        if constexpr (requires(T a, T b) { a < b; }) kigumi::parallel_sort(v.begin(), v.end());
      } else {
        kigumi::parallel_sort(v.begin(), v.end(), cmp);
      }
      got = v;
    } else if (container == 1) {
      std::deque<T> d(v.begin(), v.end());
      kigumi::parallel_sort(d.begin(), d.end(), cmp);
      got.assign(d.begin(), d.end());
    } else {
      // Part of a larger array: the rest must be left alone.
      std::vector<T> w{all.empty() ? T{} : all.back()};
      w.insert(w.end(), v.begin(), v.end());
      w.push_back(w.front());
      kigumi::parallel_sort(w.data() + 1, w.data() + 1 + v.size(), cmp);
      if (!(w.front() == w.back())) return "elements outside the range were changed";
      got.assign(w.begin() + 1, w.end() - 1);
    }
  }
  if (got.size() != all.size()) return "the number of elements changed";
  for (std::size_t i = 1; i < got.size(); ++i)
    if (cmp(got[i], got[i - 1])) return fmt("elements %zu and %zu of %zu are out of order", i - 1, i, got.size());
  auto full = [&](const T& a, const T& b) {
    if constexpr (std::is_same_v<T, Sorted>)
      return std::tie(a.key, a.tag) < std::tie(b.key, b.tag);
    else
      return a < b;
  };
  std::sort(got.begin(), got.end(), full);
  std::sort(all.begin(), all.end(), full);
  if (!(got == all)) return "the elements after sorting are not those before";
  return {};
}

struct Comparison_failed {
  std::size_t at;
};

// A comparison that throws: the caller is told, after all the workers have stopped.
inline std::string check_failing_sort(std::size_t n, std::size_t nt, Rng& rng) {
  std::vector<std::uint64_t> v(n);
  for (auto& x : v) x = rng.below(1000);
  std::atomic<std::size_t> calls{0};
  auto mark = rng.below(1000);
  auto first = rng.below(n * (rng.chance(0.5) ? 2 : 24) + 1);
  bool lasting = rng.chance(0.5);
  std::atomic<std::size_t> thrown{0};
  auto cmp = [&](std::uint64_t a, std::uint64_t b) {
    auto at = calls.fetch_add(1, std::memory_order_relaxed);
    if (at == first || (lasting && at > first && (a + b) % 1000 == mark)) {
      ++thrown;
      throw Comparison_failed{at};
    }
    return a < b;
  };
  kigumi::Threading_context ctx{Thread_setting{nt}.o};
  auto live = hk::live.load();
  bool told = false;
  try {
    kigumi::parallel_sort(v.begin(), v.end(), cmp);
  } catch (const Comparison_failed& e) {
    told = true;
    if (e.at < first) return "the exception is not one that a comparison has thrown";
  }
  auto then = calls.load();
  for (int i = 0; i < 200 && hk::live.load() != live; ++i) hk::sleep_ns(1000000);
  if (hk::live.load() != live) return "threads of the sort are left";
  if (calls != then) return "comparisons are made after the sort has returned";
  if (told != (thrown > 0)) return told ? "an exception reaches the caller that was not thrown" : "a comparison threw but the caller is not told";
  if (!told && !std::is_sorted(v.begin(), v.end())) return "not sorted";
  rep().count(told ? "sorts_with_exceptions" : "sorts_without_exception");
  return {};
}

inline void case_loops(Case_ctx& c) {
  auto& rng = c.rng;
  hk::nprocs = 16;
  c.sig = rng.next();
  for (int k = 0; k < 4; ++k) {
    Loop_case q;
    q.n = rng.chance(0.1) ? 0 : rng.chance(0.2) ? static_cast<std::size_t>(rng.range(1, 4)) : static_cast<std::size_t>(rng.range(1, rng.chance(0.2) ? 600 : 60));
    q.nt = static_cast<std::size_t>(rng.range(1, 16));
    q.style = rng.range(0, 3);
    q.salt = rng.next();
    q.with_state = rng.chance(0.6);
    q.container = rng.range(0, 3);
    if (q.n > 0 && rng.chance(0.4)) {
      int t = rng.chance(0.5) ? 1 : rng.range(1, 6);
      for (int i = 0; i < t; ++i) {
        auto x = rng.chance(0.2) ? q.n - 1 : rng.below(q.n);
        q.throwing.insert(x);
        if (rng.chance(0.4)) q.slow_throw.insert(x);
      }
    }
    std::string text = fmt("a loop over %zu items with %zu threads, %s state, style %d, %zu throwing", q.n, q.nt, q.with_state ? "a" : "no", q.style, q.throwing.size());
    if (k == 0 && c.idx % 37 == 0) rep().sample(text);
    if (c.verbose) std::fprintf(stderr, "%s\n", text.c_str());
    Loop_log log;
    std::vector<std::size_t> items(q.n);
    std::iota(items.begin(), items.end(), 0);
    hk::begin(rng.next(), rng.chance(0.7));
    if (q.container == 0) {
      run_loop(items.begin(), items.end(), [](std::size_t& x) { return x; }, q, log);
    } else if (q.container == 1) {
      std::deque<std::size_t> d(items.begin(), items.end());
      run_loop(d.begin(), d.end(), [](std::size_t& x) { return x; }, q, log);
    } else if (q.container == 2) {
      run_loop(items.data(), items.data() + items.size(), [&](std::size_t& x) { return static_cast<std::size_t>(&x - items.data()); }, q, log);
    } else {
      run_loop(kigumi::Face_iterator{kigumi::Face_index{0}}, kigumi::Face_iterator{kigumi::Face_index{q.n}},
               [](kigumi::Face_index x) { return x.idx(); }, q, log);
    }
    hk::end();
    rep().count("loops");
    rep().count("items", static_cast<long>(log.order.size()));
    if (!log.thrown.empty()) rep().count("loops_with_exceptions");
    if (log.thrown.size() > 1) rep().count("loops_with_several_exceptions");
    rep().distinct("workers_per_loop", log.threads.size());
    std::uint64_t h = 0;
    for (auto i : log.order) h = mix64(h, i);
    rep().distinct("item_orders", h);
    if (!log.error.empty()) {
      rep().violation("loop", text + ": " + log.error);
      return;
    }
  }
  for (int k = 0; k < 2; ++k) {
    static const std::vector<int> near{0, 1, 2, 3, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3072, 3073, 4097, 5120, 5121, 6145, 7169, 8192, 8193, 9217, 16384, 16385};
    auto n = static_cast<std::size_t>(rng.chance(0.4) ? rng.pick(near) : rng.range(0, rng.chance(0.3) ? 20000 : 6000));
    auto nt = static_cast<std::size_t>(rng.range(1, 16));
    auto container = rng.range(0, 2);
    bool descending = rng.chance(0.3);
    int range = rng.chance(0.3) ? 3 : rng.chance(0.5) ? 100 : 1 << 30;
    int shape = rng.range(0, 3);
    std::string text = fmt("a sort of %zu elements with %zu threads", n, nt);
    std::string e;
    auto key = [&](std::size_t i) {
      return shape == 0 ? static_cast<int>(i) : shape == 1 ? static_cast<int>(n - i) : rng.range(0, range);
    };
    hk::begin(rng.next(), rng.chance(0.7));
    if (rng.chance(0.6)) {
      std::vector<std::pair<int, int>> v(n);
      for (std::size_t i = 0; i < n; ++i) v[i] = {key(i), rng.range(0, 5)};
      if (descending)
        e = check_sort(v, nt, std::greater{}, false, container);
      else
        e = check_sort(v, nt, std::less{}, container == 0, container);
    } else {
      std::vector<Sorted> v(n);
      for (std::size_t i = 0; i < n; ++i) v[i] = {key(i), "element number " + std::to_string(i)};
      if (descending)
        e = check_sort(v, nt, [](const Sorted& a, const Sorted& b) { return b.key < a.key; }, false, container);
      else
        e = check_sort(v, nt, std::less{}, container == 0, container);
    }
    hk::end();
    rep().count("sorts");
    rep().count("sorted_elements", static_cast<long>(n));
    rep().distinct("sort_shapes", mix64((n + 1023) / 1024, nt));
    if (!e.empty()) {
      rep().violation("sort", text + ": " + e);
      return;
    }
  }
  if (rng.chance(0.5)) {
    auto n = static_cast<std::size_t>(rng.range(2, rng.chance(0.5) ? 3000 : 12000));
    auto nt = static_cast<std::size_t>(rng.range(1, 16));
    hk::begin(rng.next(), rng.chance(0.5));
    auto e = check_failing_sort(n, nt, rng);
    hk::end();
    if (!e.empty()) {
      rep().violation("failing_sort", fmt("a sort of %zu elements with %zu threads: ", n, nt) + e);
      return;
    }
  }
  c.nontrivial = true;
}
