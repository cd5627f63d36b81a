// C20: thread settings are scoped and respected. Needs hooks.h in the same executable.
#pragma once

#include "props_runs.h"

#include <kigumi/Triangle_mesh.h>
#include <kigumi/parallel_do.h>
#include <kigumi/parallel_sort.h>

#include <condition_variable>
#include <mutex>

using kigumi::Threading_context;
using kigumi::Threading_options;

inline std::size_t processors() { return static_cast<std::size_t>(std::max(1, hk::nprocs.load())); }

inline std::size_t random_setting(Rng& rng) {
  switch (rng.range(0, 7)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return static_cast<std::size_t>(-1);
    case 3: return processors();
    case 4: return processors() + 1;
    case 5: return static_cast<std::size_t>(rng.next());
    default: return static_cast<std::size_t>(rng.range(1, 16));
  }
}

struct Scope_failed : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Thrown {};

inline std::size_t current_threads() { return Threading_context::current().num_threads(); }

inline void expect_setting(std::size_t want, const char* when) {
  rep().count("settings_read");
  auto got = current_threads();
  if (got != want) throw Scope_failed(fmt("%s: the number of threads is %zu instead of %zu", when, got, want));
}

// Opens and closes scopes at random, checking the setting at every step. `want` is the setting outside.
inline void nest(Rng& rng, int depth, std::size_t want, std::function<void(Rng&)> act) {
  expect_setting(want, "before");
  int n = rng.range(1, 3);
  for (int i = 0; i < n; ++i) {
    auto set = random_setting(rng);
    auto inner = std::clamp(set, std::size_t{1}, processors());
    bool throws = rng.chance(0.3);
    rep().count("scopes");
    try {
      Threading_options o;
      if (o.num_threads() != processors())
        throw Scope_failed(fmt("the default number of threads is %zu on a machine with %zu processors", o.num_threads(), processors()));
      o.set_num_threads(set);
      if (o.num_threads() != inner) throw Scope_failed(fmt("set to %zu, the number of threads is %zu instead of %zu", set, o.num_threads(), inner));
      Threading_context ctx{o};
      o.set_num_threads(1);  // a copy is in effect
      expect_setting(inner, "in the scope");
      if (depth > 0 && rng.chance(0.7)) nest(rng, depth - 1, inner, act);
      if (rng.chance(0.3)) act(rng);
      expect_setting(inner, "at the end of the scope");
      if (throws) throw Thrown{};
    } catch (const Thrown&) {
      rep().count("scopes_left_by_exception");
    }
    expect_setting(want, "after the scope");
  }
}

inline std::string scopes_in_threads(Rng& rng) {
  // Several threads nest scopes at once; each must see only its own.
  int n = rng.range(1, 3);
  std::vector<std::thread> ts;
  std::vector<std::string> bad(static_cast<std::size_t>(n));
  std::mutex m;
  for (int i = 0; i < n; ++i) {
    Rng r{rng.next()};
    ts.emplace_back([&, i, r]() mutable {
      std::string e;
      try {
        // Counters are shared, so a lock is held while they are used; it is released in between.
        for (int k = 0; k < 3; ++k) {
          std::lock_guard lock{m};
          nest(r, 2, processors(), [&](Rng&) {});
        }
      } catch (const Scope_failed& x) {
        e = x.what();
      }
      bad[static_cast<std::size_t>(i)] = e;
    });
  }
  for (auto& t : ts) t.join();
  for (auto& e : bad)
    if (!e.empty()) return "another thread: " + e;
  return {};
}

// Interleaved on purpose: one thread opens and closes scopes while another watches its own setting.
inline std::string scopes_apart(Rng& rng) {
  std::string bad;
  std::mutex m;
  std::condition_variable cv;
  int turn = 0;
  auto wait = [&](int who) {
    std::unique_lock l{m};
    cv.wait(l, [&] { return turn % 2 == who || turn > 100; });
  };
  auto pass = [&] {
    std::lock_guard l{m};
    ++turn;
    cv.notify_all();
  };
  auto outer = current_threads();
  auto s1 = random_setting(rng);
  auto s2 = random_setting(rng);
  std::thread t{[&] {
    wait(1);
    if (current_threads() != processors()) bad = "a new thread starts with the setting of another";
    pass();
    wait(1);
    {
      Threading_context c{Thread_setting{s2}.o};
      pass();
      wait(1);
      if (current_threads() != std::clamp(s2, std::size_t{1}, processors())) bad = "a scope of one thread changed that of another";
    }
    if (current_threads() != processors()) bad = "the setting was not restored in a second thread";
    pass();
  }};
  {
    Threading_context c{Thread_setting{s1}.o};
    pass();
    wait(0);
    pass();
    wait(0);
    if (current_threads() != std::clamp(s1, std::size_t{1}, processors())) bad = "a scope of one thread changed that of another";
  }
  if (current_threads() != outer) bad = "the setting was not restored while another thread had a scope open";
  {
    Threading_context c{Thread_setting{1}.o};
    pass();
    wait(0);
    if (current_threads() != 1) bad = "closing a scope of one thread changed that of another";
  }
  {
    std::lock_guard l{m};
    turn = 1000;
  }
  t.join();
  rep().count("threads_apart");
  return bad;
}

// How many threads are in the body at once.
struct Gauge {
  std::atomic<int> now{0};
  std::atomic<int> most{0};
  void enter() {
    int n = ++now;
    int m = most.load();
    while (m < n && !most.compare_exchange_weak(m, n)) {
    }
  }
  void leave() { --now; }
};

inline void case_threads(Case_ctx& c) {
  auto& rng = c.rng;
  // A machine does not change while a process runs: fixed by the first case. Cases come in aligned
  // chunks of 50, so a case run alone sees the same machine.
  static const int machine = [&] {
    const int machines[] = {8, 8, 8, 1, 2, 3, 16, 0};
    return machines[mix64(c.seed, static_cast<std::uint64_t>(c.idx / 50)) % 8];
  }();
  hk::nprocs = machine;
  rep().distinct("machines", static_cast<std::uint64_t>(machine));
  c.sig = rng.next();
  std::string err;
  std::thread runner{[&] {
    try {
      nest(rng, 3, processors(), [&](Rng& r) {
        auto n = current_threads();
        // A loop in this scope.
        std::vector<int> items(static_cast<std::size_t>(r.range(0, 60)));
        Gauge g;
        auto body = [&](int&) {
          g.enter();
          for (int k = 0; k < 3; ++k) sched_yield();
          if (hk::nprocs.load() > 1) hk::sleep_ns(20000);
          g.leave();
        };
        hk::begin(r.next(), false);
        if (r.chance(0.5))
          kigumi::parallel_do(items.begin(), items.end(), body);
        else
          kigumi::parallel_do(items.begin(), items.end(), 0, [&](int& i, int&) { body(i); }, [](int&) {});
        auto made = hk::created.load();
        rep().count("loops");
        rep().distinct("loop_widths", static_cast<std::uint64_t>(g.most.load()));
        if (g.most > static_cast<int>(n)) throw Scope_failed(fmt("with %zu threads, a loop works on %d items at a time", n, g.most.load()));
        if (n == 1 && made != 0) throw Scope_failed(fmt("with 1 thread, a loop starts %ld threads", made));
        if (made > static_cast<long>(n)) throw Scope_failed(fmt("with %zu threads, a loop starts %ld threads", n, made));
        // A sort.
        std::vector<int> v(static_cast<std::size_t>(r.range(0, 9000)));
        for (auto& x : v) x = r.range(0, 1000);
        Gauge gs;
        hk::begin(r.next(), false);
        kigumi::parallel_sort(v.begin(), v.end(), [&](int a, int b) {
          gs.enter();
          gs.leave();
          return a < b;
        });
        made = hk::created.load();
        rep().count("sorts");
        if (gs.most > static_cast<int>(n)) throw Scope_failed(fmt("with %zu threads, a sort compares %d pairs at a time", n, gs.most.load()));
        if (n == 1 && made != 0) throw Scope_failed(fmt("with 1 thread, a sort starts %ld threads", made));
        if (made > static_cast<long>(n)) throw Scope_failed(fmt("with %zu threads, a sort starts %ld threads", n, made));
      });
      err = scopes_apart(rng);
      if (err.empty()) err = scopes_in_threads(rng);
    } catch (const Scope_failed& e) {
      err = e.what();
    }
  }};
  runner.join();
  if (!err.empty()) {
    rep().violation("scope", err);
    return;
  }
  // Operations with one thread start none, and end with the setting they started with.
  bool heavy = c.idx % 4 == 0;
  Gen_options o;
  o.large = heavy ? 0.4 : 0.02;
  auto p = gen_pair(rng, o);
  note_pair(c, p);
  auto bad = [&](const char* what) -> bool {
    long n = hk::created.load();
    rep().count(std::string{"operations_of_one_thread."} + what);
    if (n != 0) {
      rep().violation("threads", fmt("with 1 thread, %s starts %ld threads: ", what, n) + pair_text(p));
      return true;
    }
    if (current_threads() != 1) {
      rep().violation("scope", fmt("after %s, the number of threads is %zu instead of 1", what, current_threads()));
      return true;
    }
    return false;
  };
  kigumi::Threading_context ctx{Thread_setting{rng.chance(0.3) ? std::size_t{0} : std::size_t{1}}.o};
  auto a = to_region(p.a.m);
  auto b = to_region(p.b.m);
  hk::begin(1, false);
  Builder bld{a, b};
  if (bad("combining")) return;
  hk::begin(1, false);
  auto r = bld(all_ops()[rng.below(16)]);
  if (bad("extracting")) return;
  if (!p.clipped) {
    hk::begin(1, false);
    r.bounded_side(random_point_in(p, rng));
    a.bounded_side(random_point_in(p, rng));
    if (bad("point_location")) return;
  }
  hk::begin(1, false);
  Defects d{a.boundary()};
  if (bad("searching_defects")) return;
  {
    kigumi::Triangle_mesh<K> m;
    for (auto& q : p.b.m.v) m.add_vertex(q);
    for (auto& t : p.b.m.f) m.add_face({Vertex_index{t[0]}, Vertex_index{t[1]}, Vertex_index{t[2]}});
    hk::begin(1, false);
    m.finalize();
    if (bad("indexing")) return;
  }
  c.nontrivial = true;
}
